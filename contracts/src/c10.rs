//! C10: an update of the stock happens in all of its parts or in none.
//# assumes: storage providers fail with an error, not by panicking

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

use bp::seals::txout::CloseMethod;
use bp::Vout;
use commit_verify::Conceal;
use nonasync::persistence::{CloneNoPersistence, PersistenceError, PersistenceProvider};
use rgbcore::{ContractId, OutputSeal, XChain, XOutputSeal};
use rgbinvoice::{Beneficiary, ChainNet, RgbInvoice, RgbInvoiceBuilder, XChainNet};
use rgbstd::containers::{ConsignmentExt, Fascia, ValidContract, ValidTransfer};
use rgbstd::persistence::{MemIndex, MemStash, MemState, Stock};

use crate::fx;
use crate::rec::{Call, Log, Part, Rec, Shared};
use crate::registry::{Contract, Kani, Property};
use crate::src::Src;
use crate::tp::Toy;
use crate::world::{self, Chain, Coin};
use crate::{post, reach};

/// Everything the updates are made of.
pub struct Scene {
    pub chain: Chain,
    pub contracts: Vec<ValidContract>,
    /// One witness with bundles of all contracts.
    pub fascia: Fascia,
    pub transfer: ValidTransfer,
    pub secret: XChain<rgbcore::GraphSeal>,
    pub ids: Vec<ContractId>,
}

fn out(n: u32) -> XOutputSeal { XChain::Bitcoin(OutputSeal::with(CloseMethod::OpretFirst, fx::txid(n), 0u32)) }

fn invoice(id: ContractId, face: &'static str, seal: rgbcore::GraphSeal, amount: u64) -> RgbInvoice {
    RgbInvoiceBuilder::with(
        id,
        XChainNet::with(ChainNet::BitcoinTestnet, Beneficiary::BlindedSeal(seal.conceal())),
    )
    .set_interface(face)
    .set_amount_raw(amount)
    .finish()
}

/// Building a scene is slow.
pub fn scene(n: u32) -> Rc<Scene> {
    thread_local!(static MADE: RefCell<BTreeMap<u32, Rc<Scene>>> = RefCell::default());
    if let Some(s) = MADE.with(|m| m.borrow().get(&n).cloned()) {
        return s;
    }
    let s = Rc::new(make_scene(n));
    MADE.with(|m| m.borrow_mut().insert(n, s.clone()));
    s
}

/// `n` contracts, all with coins on the same output.
fn make_scene(n: u32) -> Scene {
    let mut chain = Chain::default();
    let mut a = world::stock();
    let coins = [
        Coin { kind: 0, seal: 1, value: 100 },
        Coin { kind: 1, seal: 1, value: 7 },
        Coin { kind: 2, seal: 2, value: 0 },
    ];
    let contracts: Vec<_> =
        (0..n).map(|i| world::issue(0, i, &coins, CloseMethod::OpretFirst)).collect();
    for c in &contracts {
        a.import_contract(c.clone(), &chain).unwrap();
    }
    let ids: Vec<_> = contracts.iter().map(|c| c.contract_id()).collect();
    let seal = fx::graph_seal(0, 5);
    let b = a
        .compose(
            &invoice(ids[0], "Face0", seal, 60),
            [out(1)],
            CloseMethod::OpretFirst,
            None::<Vout>,
            |_, _, _| Some(Vout::from_u32(1)),
        )
        .unwrap();
    let fascia = chain.publish(1, world::mined(1), world::infos(b));
    a.consume_fascia(fascia.clone(), &chain).unwrap();
    let transfer = a
        .transfer(ids[0], [], Some(XChain::Bitcoin(seal.conceal())))
        .unwrap()
        .validate(&chain, true)
        .unwrap_or_else(|_| panic!("transfer"));
    Scene { chain, contracts, fascia, transfer, secret: XChain::Bitcoin(seal), ids }
}

type RecStock = Stock<Rec<MemStash>, Rec<MemState>, Rec<MemIndex>>;

fn rec_stock(log: &Shared) -> RecStock {
    Stock::with(
        Rec::new(Part::Stash, log, MemStash::in_memory()),
        Rec::new(Part::State, log, MemState::in_memory()),
        Rec::new(Part::Index, log, MemIndex::in_memory()),
    )
}

/// The update kinds. Returns whether the update was accepted.
macro_rules! update {
    ($s:expr, $kind:expr, $sc:expr, $chain:expr) => {
        match $kind {
            0 => $s.import_kit(world::kit(1)).is_ok(),
            1 => $s.import_contract($sc.contracts[0].clone(), $chain).is_ok(),
            2 => $s.consume_fascia($sc.fascia.clone(), $chain).is_ok(),
            3 => $s.accept_transfer($sc.transfer.clone(), $chain).is_ok(),
            _ => $s.store_secret_seal($sc.secret).is_ok(),
        }
    };
}

/// Brings the stock to the state the update starts from.
macro_rules! prepare {
    ($s:expr, $kind:expr, $sc:expr) => {
        $s.import_kit(world::kit(0)).unwrap();
        if $kind == 2 || $kind == 4 {
            for c in &$sc.contracts {
                $s.import_contract(c.clone(), &$sc.chain).unwrap();
            }
        }
        if $kind == 3 {
            $s.store_secret_seal($sc.secret).unwrap();
        }
    };
}

/// Every fault position: each started part is rolled back, nothing is committed
/// afterwards, and the caller is told.
fn faults<S: Src>(s: &mut S) {
    let kind = s.below(5);
    let n = 1 + s.below(2);
    let sc = scene(n);
    let log: Shared = Rc::new(RefCell::new(Log::default()));
    let mut stock = rec_stock(&log);
    prepare!(stock, kind, sc);
    // how many positions there are
    let total = {
        let mut probe = stock.clone_no_persistence();
        *log.borrow_mut() = Log::default();
        post!(update!(probe, kind, sc, &sc.chain), "update: accepted when nothing fails");
        let c = log.borrow().count;
        c
    };
    let at = s.below(total as u32 + 1) as usize;
    *log.borrow_mut() = Log { fail_at: Some(at), ..Log::default() };
    let ok = update!(stock, kind, sc, &sc.chain);
    let calls = log.borrow().calls.clone();
    reach!(s, at == total, "no fault");
    if let Some((_, c, _)) = calls.iter().find(|(_, _, ok)| !ok) {
        reach!(s, *c == Call::Begin, "fault at the start");
        reach!(s, *c == Call::Commit, "fault at the commit");
        reach!(s, *c == Call::Write, "fault while writing");
    }
    post!(ok == (at == total), "update: reported as failed exactly when a step failed");
    for part in [Part::Stash, Part::State, Part::Index] {
        let mine: Vec<_> = calls.iter().filter(|(p, ..)| *p == part).map(|(_, c, ok)| (*c, *ok)).collect();
        let begun = mine.iter().position(|c| *c == (Call::Begin, true));
        let commits = mine.iter().filter(|c| **c == (Call::Commit, true)).count();
        let writes = mine.iter().filter(|(c, _)| *c == Call::Write).count();
        if let Some(b) = begun {
            post!(mine[..b].iter().all(|(c, _)| *c != Call::Write), "write: inside of a transaction");
        } else {
            post!(writes == 0 && commits == 0, "write: only in a started transaction");
        }
        let mut last = None;
        for (i, (c, ok)) in mine.iter().enumerate() {
            match c {
                Call::Commit => {
                    post!(mine[i..].iter().all(|(c, _)| *c != Call::Write), "write: none after the commit");
                    last = Some((*c, *ok));
                }
                Call::Rollback => {
                    post!(
                        mine[i..].iter().all(|(c, _)| *c == Call::Rollback),
                        "rollback: nothing happens to the part afterwards"
                    );
                    last = Some((*c, *ok));
                }
                Call::Begin => last = Some((*c, *ok)),
                Call::Write => {}
            }
        }
        if ok {
            if kind == 1 || kind == 2 || kind == 3 || part == Part::Stash {
                post!(begun.is_some() && commits == 1, "success: the part is committed, once");
            }
            post!(begun.is_none() || last == Some((Call::Commit, true)), "success: a started part is committed");
        } else if begun.is_some() {
            post!(last == Some((Call::Rollback, true)), "failure: a started part is rolled back");
        }
    }
}

/// Judges what one part went through.
fn settled(t: &Toy, ok: bool) {
    post!(!t.misused, "transaction: begun before written, committed once");
    if ok {
        post!(t.begun == 1 && t.committed == 1 && t.rolled == 0, "success: the part is committed, once");
    } else if t.begun > 0 {
        post!(t.rolled > 0, "failure: a started part is rolled back");
    } else {
        post!(t.committed == 0 && !t.written, "failure: a part not started is untouched");
    }
}

/// Whatever the providers answer, all the parts are committed or none.
fn outcomes<S: Src>(s: &mut S) {
    let stash = Toy::new(s.bool(), s.bool(), s.bool());
    let state = Toy::new(s.bool(), s.bool(), s.bool());
    let index = Toy::new(s.bool(), s.bool(), s.bool());
    let f = stash.writes && state.writes && index.writes;
    let begins = stash.begins && state.begins && index.begins;
    let commits = stash.commits && state.commits && index.commits;
    let mut stock = Stock::with(stash, state, index);
    let sc = scene(1);
    let ok = stock.consume_fascia(sc.fascia.clone(), &sc.chain).is_ok();
    reach!(s, ok, "updated");
    reach!(s, !begins, "not started");
    reach!(s, begins && !f, "failed halfway");
    reach!(s, begins && f && !commits, "not committed");
    post!(ok == (begins && f && commits), "update: reported as failed exactly when a step failed");
    settled(stock.as_stash_provider(), ok);
    settled(stock.as_state_provider(), ok);
    settled(stock.as_index_provider(), ok);
}

/// As above, for the update of the stash only.
fn seal<S: Src>(s: &mut S) {
    let stash = Toy::new(s.bool(), s.bool(), s.bool());
    let all = stash.begins && stash.writes && stash.commits;
    reach!(s, stash.begins && stash.writes && !stash.commits, "not committed");
    let mut stock = Stock::with(stash, Toy::new(true, true, true), Toy::new(true, true, true));
    let seal = rgbcore::GraphSeal::with_blinding(
        CloseMethod::OpretFirst,
        bp::seals::txout::TxPtr::WitnessTx,
        1u32,
        7,
    );
    let ok = stock.store_secret_seal(XChain::Bitcoin(seal)).is_ok();
    reach!(s, ok, "stored");
    post!(ok == all, "seal: reported as failed exactly when a step failed");
    settled(stock.as_stash_provider(), ok);
    post!(!stock.as_state_provider().written && !stock.as_index_provider().written, "seal: other parts are untouched");
}

/// All the data kept by the stock.
fn dump(s: &Stock) -> String {
    format!(
        "{:?}{:?}{:?}",
        s.as_stash_provider().clone_no_persistence(),
        s.as_state_provider().clone_no_persistence(),
        s.as_index_provider().clone_no_persistence()
    )
}

/// A refused update leaves the in-memory stock as it was, and the stock is still
/// able to take the correct one.
fn restored<S: Src>(s: &mut S) {
    let kind = 1 + s.below(3);
    let n = 1 + s.below(3);
    let sc = scene(n);
    let mut stock = Stock::in_memory();
    prepare!(stock, kind, sc);
    let mut chain = sc.chain.clone();
    let mut fascia = sc.fascia.clone();
    let fault = s.below(3);
    let victim = s.below(n) as usize;
    match fault {
        0 => chain.down.extend(chain.txs.keys().copied().collect::<Vec<_>>()),
        1 => {
            // a bundle whose transition is not in its input map
            let mut m: BTreeMap<_, _> = fascia.bundles.clone().release();
            let d = m.get_mut(&sc.ids[victim]).unwrap();
            let mut t = d.first.known_transitions.values().next().unwrap().clone();
            t.nonce = 5;
            d.first.known_transitions.insert(rgbcore::Operation::id(&t), t).unwrap();
            fascia.bundles = amplify::confinement::Confined::from_checked(m);
        }
        _ => {
            // a contract which is not known
            let mut m: BTreeMap<_, _> = fascia.bundles.clone().release();
            let d = m.get(&sc.ids[0]).unwrap().clone();
            m.insert(fx::contract_id(s.below(3) * 100), d);
            fascia.bundles = amplify::confinement::Confined::from_checked(m);
        }
    }
    let before = dump(&stock);
    let ok = match kind {
        1 => stock.import_contract(sc.contracts[0].clone(), &chain).is_ok(),
        2 => stock.consume_fascia(fascia, &chain).is_ok(),
        _ => stock.accept_transfer(sc.transfer.clone(), &chain).is_ok(),
    };
    if kind == 2 {
        post!(!ok, "update: a wrong one is refused");
    }
    if ok {
        return;
    }
    reach!(s, fault == 0 && kind == 2, "resolver failed on a witness");
    reach!(s, fault == 0 && kind == 3, "resolver failed on a transfer");
    reach!(s, fault == 1 && victim > 0, "later bundle is wrong");
    post!(dump(&stock) == before, "failure: nothing of the update remains");
    post!(update!(stock, kind, sc, &sc.chain), "failure: the right update is accepted afterwards");
    let mut fresh = Stock::in_memory();
    prepare!(fresh, kind, sc);
    update!(fresh, kind, sc, &sc.chain);
    post!(dump(&stock) == dump(&fresh), "failure: leaves no trace in later updates");
}

/// Memory standing for the disk, with an injected failure.
#[derive(Clone, Debug, Default)]
pub struct Disk(Arc<Mutex<DiskInner>>);
#[derive(Debug, Default)]
pub struct DiskInner {
    count: usize,
    fail_at: Option<usize>,
}
#[derive(Debug)]
struct Broken;
impl std::fmt::Display for Broken {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("broken") }
}
impl std::error::Error for Broken {}
impl Disk {
    fn write(&self) -> Result<(), PersistenceError> {
        let mut d = self.0.lock().unwrap();
        let n = d.count;
        d.count += 1;
        if d.fail_at == Some(n) {
            Err(PersistenceError::with(Broken))
        } else {
            Ok(())
        }
    }
}
impl PersistenceProvider<MemStash> for Disk {
    fn load(&self) -> Result<MemStash, PersistenceError> { Ok(MemStash::in_memory()) }
    fn store(&self, _: &MemStash) -> Result<(), PersistenceError> { self.write() }
}
impl PersistenceProvider<MemState> for Disk {
    fn load(&self) -> Result<MemState, PersistenceError> { Ok(MemState::in_memory()) }
    fn store(&self, _: &MemState) -> Result<(), PersistenceError> { self.write() }
}
impl PersistenceProvider<MemIndex> for Disk {
    fn load(&self) -> Result<MemIndex, PersistenceError> { Ok(MemIndex::in_memory()) }
    fn store(&self, _: &MemIndex) -> Result<(), PersistenceError> { self.write() }
}

/// The write to disk fails at any of the parts.
fn unsaved<S: Src>(s: &mut S) {
    let kind = s.below(6);
    let sc = scene(1 + s.below(2));
    let mut stock = Stock::in_memory();
    prepare!(stock, kind, sc);
    if kind == 5 {
        for c in &sc.contracts {
            stock.import_contract(c.clone(), &sc.chain).unwrap();
        }
        stock.consume_fascia(sc.fascia.clone(), &sc.chain).unwrap();
    }
    let disk = Disk::default();
    stock.make_persistent(disk.clone(), s.bool()).unwrap();
    let before = dump(&stock);
    let mut later = sc.chain.clone();
    for o in later.ord.values_mut() {
        *o = rgbcore::vm::WitnessOrd::Archived;
    }
    {
        let mut d = disk.0.lock().unwrap();
        d.count = 0;
        d.fail_at = Some(s.below(8) as usize);
    }
    let ok = if kind == 5 {
        stock.update_witnesses(&later, 0).is_ok()
    } else {
        update!(stock, kind, sc, &sc.chain)
    };
    if !ok {
        reach!(s, kind == 5, "status update not written");
        reach!(s, kind == 2, "fascia not written");
        reach!(s, kind == 0, "kit not written");
        reach!(s, kind == 4, "seal not written");
        post!(dump(&stock) == before, "unsaved: a failed update leaves the stock as it was");
    }
}

pub const PROPERTY: Property = Property {
    id: "C10",
    module: "c10",
    findings: &[],
    contracts: &[
        Contract {
            name: "outcomes",
            f: outcomes,
            fns: &["Stock::store_transaction", "StoreTransaction for Stash", "StoreTransaction for State", "StoreTransaction for Index"],
            kani: Kani::No,
            native: "all 512 combinations of outcomes of the three providers (complete)",
            reach: &["updated", "not started", "failed halfway", "not committed"],
        },
        Contract {
            name: "seal",
            f: seal,
            fns: &["Stock::store_secret_seal", "Stash::store_secret_seal"],
            kani: Kani::No,
            native: "all 8 outcomes of the provider",
            reach: &["stored", "not committed"],
        },
        Contract {
            name: "faults",
            f: faults,
            fns: &["Stock::store_transaction", "Stock::consume_fascia", "Stock::consume_consignment", "Stock::import_kit", "Stash::store_secret_seal", "StoreTransaction for Stash", "StoreTransaction for State", "StoreTransaction for Index", "Stash::consume_consignment", "Stash::consume_kit", "Index::index_consignment", "State::update_from_consignment"],
            kani: Kani::No,
            native: "kit, contract, fascia, transfer and seal updates of 1..2 contracts with a fault at every single begin, write and commit call of the three providers, enumerated completely",
            reach: &["no fault", "fault at the start", "fault at the commit", "fault while writing"],
        },
        Contract {
            name: "restored",
            f: restored,
            fns: &["StoreTransaction for MemStash", "StoreTransaction for MemState", "StoreTransaction for MemIndex", "Stock::store_transaction", "Stock::consume_fascia", "Stock::consume_consignment"],
            kani: Kani::No,
            native: "contract, fascia and transfer updates of 1..3 contracts refused for an unavailable witness, a wrong bundle or an unknown contract",
            reach: &["resolver failed on a witness", "resolver failed on a transfer", "later bundle is wrong"],
        },
        Contract {
            name: "unsaved",
            f: unsaved,
            fns: &["StoreTransaction for MemStash", "StoreTransaction for MemState", "StoreTransaction for MemIndex", "MemState::update_witnesses", "Stock::import_kit", "Stash::store_secret_seal"],
            kani: Kani::No,
            native: "all six kinds of updates with the write to the disk failing at each position, with and without autosave",
            reach: &["status update not written", "fascia not written", "kit not written", "seal not written"],
        },
    ],
};
