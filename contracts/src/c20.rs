//! C20: a transfer gives the receiver everything needed and nothing unrelated.
//# assumes: consignment validation by rgb-core is right

use std::collections::{BTreeMap, BTreeSet};

use amplify::Wrapper as _;
use bp::seals::txout::CloseMethod;
use bp::{Outpoint, PubkeyHash, Txid, Vout};
use commit_verify::Conceal;
use rgbcore::{
    ContractId, Genesis, GraphSeal, OpId, Operation, Opout, OutputSeal, SecretSeal, Transition, XChain, XOutputSeal,
};
use rgbinvoice::{AddressPayload, Beneficiary, ChainNet, Pay2Vout, RgbInvoiceBuilder, XChainNet};
use rgbstd::containers::{BuilderSeal, ConsignmentExt, PubWitness};
use rgbstd::persistence::{PersistedState, Stock};

use crate::c19::{list, St};
use crate::fx;
use crate::registry::{Contract, Kani, Property};
use crate::src::Src;
use crate::world::{self, Chain, Coin};
use crate::{post, reach};

/// An unspent piece of state.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Own {
    contract: ContractId,
    opout: Opout,
    st: St,
    owner: usize,
    at: Outpoint,
}

fn seal_at(o: Outpoint) -> XOutputSeal {
    XChain::Bitcoin(OutputSeal::with(CloseMethod::OpretFirst, o.txid, o.vout))
}

fn state_of(p: &PersistedState) -> St {
    match p {
        PersistedState::Void => St::Right,
        PersistedState::Amount(a, _, t) => St::Amount(a.value(), *t),
        PersistedState::Data(d, _) => St::Data(d.as_inner().to_vec()),
        PersistedState::Attachment(..) => St::Other,
    }
}

/// What the stock knows about the output.
fn known(s: &Stock, id: ContractId, o: Outpoint) -> Vec<(Opout, St)> {
    let mut v: Vec<(Opout, St)> = match s.contract_assignments_for(id, [seal_at(o)]) {
        Ok(m) => {
            post!(m.keys().all(|k| world::seal_outpoint(k) == o), "state: of the requested output");
            m.values().flat_map(|m| m.iter().map(|(o, p)| (*o, state_of(p)))).collect()
        }
        Err(_) => vec![],
    };
    v.sort();
    v
}

struct Ledger {
    own: Vec<Own>,
    /// All the operations: contract, transaction, transition.
    ops: BTreeMap<OpId, (ContractId, Txid, Transition)>,
    genesis: BTreeMap<ContractId, Genesis>,
}

impl Ledger {
    fn ancestors(&self, of: impl IntoIterator<Item = OpId>) -> BTreeSet<OpId> {
        let mut todo: Vec<OpId> = of.into_iter().collect();
        let mut seen = BTreeSet::new();
        while let Some(id) = todo.pop() {
            if let Some((_, _, t)) = self.ops.get(&id) {
                if seen.insert(id) {
                    todo.extend(t.inputs.iter().map(|i| i.prev_out.op));
                }
            }
        }
        seen
    }
}

fn trade<S: Src>(s: &mut S) {
    let mut chain = Chain::default();
    let mut parties: Vec<Stock> = (0..3).map(|_| world::stock()).collect();
    let mut l = Ledger { own: vec![], ops: BTreeMap::new(), genesis: BTreeMap::new() };
    let n = 1 + s.below(2);
    let mut ids = vec![];
    for i in 0..n {
        let coins = [
            Coin { kind: 0, seal: 1, value: 50 },
            Coin { kind: 2, seal: 1, value: 0 },
            Coin { kind: 0, seal: 2, value: 30 },
            Coin { kind: 1, seal: 2, value: 3 },
        ];
        let c = world::issue(i, i, &coins[..2 + s.below(3) as usize], CloseMethod::OpretFirst);
        let id = c.genesis.contract_id();
        for (ty, no, seal, st) in list(&c.genesis.assignments) {
            let BuilderSeal::Revealed(XChain::Bitcoin(g)) = seal else { unreachable!() };
            let opout = Opout::new(c.genesis.id(), ty, no);
            l.own.push(Own { contract: id, opout, st, owner: 0, at: Outpoint::new(g.txid, g.vout) });
        }
        l.genesis.insert(id, c.genesis.clone());
        parties[0].import_contract(c, &chain).unwrap();
        ids.push(id);
    }

    let mut seen: [BTreeSet<OpId>; 3] = Default::default();
    let mut gone = BTreeSet::<Outpoint>::new();
    let mut used: Vec<Vec<GraphSeal>> = vec![vec![], vec![], vec![]];
    for step in 0..1 + s.below(4) {
        let k = s.below(n) as usize;
        let id = ids[k];
        let owners: BTreeSet<usize> = l
            .own
            .iter()
            .filter(|o| o.contract == id && o.opout.ty == world::AMOUNT)
            .map(|o| o.owner)
            .collect();
        let owners: Vec<usize> = owners.into_iter().collect();
        let payer = owners[s.below(owners.len() as u32) as usize];
        let receiver = (payer + 1 + s.below(2) as usize) % 3;
        let outs: BTreeSet<Outpoint> = l
            .own
            .iter()
            .filter(|o| o.contract == id && o.owner == payer && o.opout.ty == world::AMOUNT)
            .map(|o| o.at)
            .collect();
        let mut outs: Vec<Outpoint> = outs.into_iter().collect();
        if outs.len() > 1 && s.bool() {
            outs.truncate(1);
        }
        let total: u64 = l
            .own
            .iter()
            .filter(|o| o.contract == id && outs.contains(&o.at) && o.opout.ty == world::AMOUNT)
            .map(|o| if let St::Amount(a, _) = o.st { a } else { 0 })
            .sum();
        let amount = if s.below(4) == 0 { total } else { (total / 2).max(1) };
        // how the receiver gets it
        let blinded = s.below(3) > 0;
        used[receiver].retain(|g| !gone.contains(&Outpoint::new(*fx_txid(g), g.vout)));
        let reuse = blinded && s.below(3) == 0 && !used[receiver].is_empty();
        let seal = if reuse {
            *used[receiver].last().unwrap()
        } else {
            fx::graph_seal(0, 300 + 10 * receiver as u32 + step)
        };
        let secret: SecretSeal = seal.conceal();
        let beneficiary = if blinded {
            used[receiver].push(seal);
            parties[receiver].store_secret_seal(XChain::Bitcoin(seal)).unwrap();
            Beneficiary::BlindedSeal(secret)
        } else {
            Beneficiary::WitnessVout(Pay2Vout {
                method: CloseMethod::OpretFirst,
                address: AddressPayload::Pkh(PubkeyHash::from([7u8; 20])),
            })
        };
        let face: &'static str = ["Face0", "Face1"][k];
        let invoice = RgbInvoiceBuilder::with(id, XChainNet::with(ChainNet::BitcoinTestnet, beneficiary))
            .set_interface(face)
            .set_amount_raw(amount)
            .finish();
        let batch = parties[payer].compose(
            &invoice,
            outs.iter().copied().map(seal_at),
            CloseMethod::OpretFirst,
            if blinded { None } else { Some(Vout::from_u32(2)) },
            |_, _, _| Some(Vout::from_u32(1)),
        );
        post!(batch.is_ok(), "payment: composed by the owner");
        let infos = world::infos(batch.unwrap());
        let transitions: Vec<Transition> = infos.iter().map(|i| i.transition.clone()).collect();
        let fascia = chain.publish(step, world::mined(step), infos);
        let txid = fascia_txid(&fascia);
        // the ledger
        let mut target = None;
        gone.extend(outs.iter().copied());
        for t in &transitions {
            for i in t.inputs.iter() {
                let p = l.own.iter().position(|o| o.opout == i.prev_out && o.contract == t.contract_id);
                post!(p.is_some(), "payment: spends what is unspent");
                l.own.remove(p.unwrap());
            }
            for (ty, no, b, st) in list(&t.assignments) {
                let (at, to) = match b {
                    BuilderSeal::Concealed(_) => (Outpoint::new(*fx_txid(&seal), seal.vout), receiver),
                    BuilderSeal::Revealed(XChain::Bitcoin(g)) => (
                        Outpoint::new(txid, g.vout),
                        if !blinded && g.vout == Vout::from_u32(2) { receiver } else { payer },
                    ),
                    _ => unreachable!(),
                };
                l.own.push(Own { contract: t.contract_id, opout: Opout::new(t.id(), ty, no), st, owner: to, at });
                if to == receiver {
                    target = Some(t.id());
                }
            }
            l.ops.insert(t.id(), (t.contract_id, txid, t.clone()));
            seen[payer].insert(t.id());
        }
        let target = target.unwrap();
        post!(parties[payer].consume_fascia(fascia, &chain).is_ok(), "payment: known to the payer");

        // the consignment
        let mut outputs: Vec<XOutputSeal> = vec![];
        if !blinded {
            outputs.push(seal_at(Outpoint::new(txid, 2u32)));
        }
        // the change may be asked for as well
        let with_change = s.below(4) == 0 && amount < total;
        if with_change {
            outputs.push(seal_at(Outpoint::new(txid, 1u32)));
        }
        let transfer = parties[payer].transfer(
            id,
            &outputs,
            if blinded { Some(XChain::Bitcoin(secret)) } else { None },
        );
        post!(transfer.is_ok(), "transfer: made");
        let t = transfer.unwrap();
        post!(t.transfer && t.contract_id() == id && t.genesis == l.genesis[&id], "transfer: of the contract");
        // all operations to the seal, if it is used several times
        let mut targets = BTreeSet::from([target]);
        if blinded {
            targets.extend(l.ops.iter().filter(|(op, (c, ..))| {
                *c == id
                    && seen[payer].contains(*op)
                    && list(&l.ops[*op].2.assignments).iter().any(|a| {
                        a.2 == BuilderSeal::Concealed(XChain::Bitcoin(secret))
                    })
            }).map(|x| *x.0));
        }
        reach!(s, targets.len() > 1, "several payments to a seal");
        let want = l.ancestors([target]);
        let mut got = BTreeSet::new();
        let mut homes = BTreeMap::new();
        for wb in t.bundles.iter() {
            for b in wb.anchored_bundles.bundles() {
                for (op, tr) in b.known_transitions.iter() {
                    post!(tr.contract_id == id, "transfer: has no operations of other contracts");
                    got.insert(*op);
                    homes.insert(*op, b.bundle_id());
                    let XChain::Bitcoin(w) = &wb.pub_witness else {
                        post!(false, "witness: on the right chain");
                        return;
                    };
                    let wid = match w {
                        PubWitness::Txid(t) => *t,
                        PubWitness::Tx(t) => t.txid(),
                    };
                    post!(l.ops.get(op).map(|o| o.1) == Some(wid), "witness: the one of the operation");
                    post!(l.ops.get(op).map(|o| &o.2) == Some(tr), "transfer: operations are unaltered");
                }
            }
        }
        reach!(s, want.len() > 2, "long history");
        post!(got.is_superset(&want), "transfer: has all ancestors");
        post!(got.is_subset(&l.ancestors(targets.iter().copied())), "transfer: has nothing unrelated");
        if blinded {
            // earlier ones may have been revealed by their owner in the meantime
            let at: BTreeSet<_> = t.terminals.keys().copied().collect();
            let all: BTreeSet<_> =
                homes.iter().filter(|(op, _)| targets.contains(*op)).map(|x| *x.1).collect();
            post!(at.is_subset(&all) && at.contains(&homes[&target]), "terminals: in the bundles with the seal");
            post!(
                t.terminals.values().all(|x| format!("{x:?}") == format!("{:?}", XChain::<SecretSeal>::Bitcoin(secret))),
                "terminals: the requested seal"
            );
        } else {
            post!(t.terminals.is_empty(), "terminals: none was asked for");
        }
        let valid = t.validate(&chain, true);
        post!(valid.is_ok(), "transfer: passes the validation");
        let valid = valid.unwrap_or_else(|_| unreachable!());
        reach!(s, reuse, "seal used again");
        reach!(s, with_change && blinded, "change asked for with the seal");
        reach!(s, !blinded, "witness output");
        reach!(s, payer != 0, "received coins paid further");
        post!(parties[receiver].accept_transfer(valid, &chain).is_ok(), "transfer: accepted by the receiver");

        seen[receiver].extend(got);

        // both know what they have
        for o in &l.own {
            if o.owner == payer || (o.owner == receiver && o.opout.op == target) {
                let at = known(&parties[o.owner], o.contract, o.at);
                post!(at.contains(&(o.opout, o.st.clone())), "state: known to its owner");
                let here: Vec<(Opout, St)> = l
                    .own
                    .iter()
                    .filter(|x| x.contract == o.contract && x.at == o.at)
                    .map(|x| (x.opout, x.st.clone()))
                    .collect();
                post!(
                    at.iter().all(|a| here.contains(a)),
                    "state: nothing else is reported on the output"
                );
            }
        }
    }

    // the contract itself, without any of the trades
    let id = ids[s.below(n) as usize];
    let c = parties[0].export_contract(id);
    post!(c.is_ok(), "export: made");
    let c = c.unwrap();
    post!(!c.transfer && c.genesis == l.genesis[&id] && c.terminals.is_empty(), "export: of the contract");
    post!(c.bundles.is_empty(), "export: discloses no trades");
    let c = c.validate(&chain, true);
    post!(c.is_ok(), "export: passes the validation");
    let mut fresh = Stock::in_memory();
    post!(fresh.import_contract(c.unwrap_or_else(|_| unreachable!()), &chain).is_ok(), "export: accepted");
    for (ty, no, b, st) in list(&l.genesis[&id].assignments) {
        let BuilderSeal::Revealed(XChain::Bitcoin(g)) = b else { unreachable!() };
        let at = known(&fresh, id, Outpoint::new(g.txid, g.vout));
        post!(at.contains(&(Opout::new(l.genesis[&id].id(), ty, no), st)), "export: carries the state");
    }
}

fn fx_txid(g: &GraphSeal) -> &Txid {
    match &g.txid {
        bp::seals::txout::TxPtr::Txid(t) => t,
        _ => panic!("known"),
    }
}

fn fascia_txid(f: &rgbstd::containers::Fascia) -> Txid {
    world::txid_of(f.witness_id())
}

/// The consignment carries the interfaces which the schema implements, also when
/// other versions of them are known.
fn interfaces<S: Src>(s: &mut S) {
    let mut stock = Stock::in_memory();
    let versions = s.below(3);
    let before = s.bool();
    if !before {
        stock.import_kit(world::kit(0)).unwrap();
    }
    for v in 0..versions {
        let k = world::kinds(1);
        let mut iface = world::kinds(0).iface.clone();
        iface.timestamp += 1 + v as i64 + 10 * s.below(64) as i64;
        let mut iimpl = k.iimpl.clone();
        iimpl.iface_id = iface.iface_id();
        let mut kit = rgbstd::containers::Kit::default();
        kit.schemata.push(k.schema.clone()).unwrap();
        kit.ifaces.push(iface).unwrap();
        kit.iimpls.push(iimpl).unwrap();
        kit.types = k.types.clone();
        let Ok(kit) = kit.validate() else { panic!("kit") };
        stock.import_kit(kit).unwrap();
    }
    if before {
        stock.import_kit(world::kit(0)).unwrap();
    }
    let coins = [Coin { kind: 0, seal: 1, value: 5 }];
    let chain = Chain::default();
    let contract = world::issue(0, 0, &coins, CloseMethod::OpretFirst);
    let id = contract.contract_id();
    stock.import_contract(contract, &chain).unwrap();
    let c = stock.export_contract(id).unwrap();
    reach!(s, versions > 1, "several versions");
    let k = world::kinds(0);
    post!(
        c.ifaces.len() == 1 && c.ifaces.iter().all(|(f, i)| *f == k.iface && *i == k.iimpl),
        "interfaces: those implemented by the schema"
    );
    let valid = c.validate(&chain, true);
    post!(valid.is_ok(), "interfaces: the contract is valid");
    let Ok(valid) = valid else { return };
    let mut other = Stock::in_memory();
    post!(other.import_contract(valid, &chain).is_ok(), "interfaces: the contract is accepted");
    let f = other.contract_iface(id, k.iface.iface_id());
    post!(f.is_ok_and(|f| f.iface == k.iimpl), "interfaces: the contract is read through its interface");
}

pub const PROPERTY: Property = Property {
    id: "C20",
    module: "c20",
    findings: &[],
    contracts: &[Contract {
        name: "interfaces",
        f: interfaces,
        fns: &["Stock::export_contract", "Stock::consign", "Stash::iface", "Stock::import_contract", "Stock::contract_iface"],
        kani: Kani::No,
        native: "a contract exported from a stock knowing up to 2 more versions of its interface",
        reach: &["several versions"],
    }, Contract {
        name: "trade",
        f: trade,
        fns: &["Stock::transfer", "Stock::consign", "Stock::export_contract", "Stock::client_bundle", "Stock::transition", "Stock::accept_transfer", "Stock::consume_consignment", "Stock::consume_fascia", "Index::opouts_by_outputs", "Index::opouts_by_terminals", "ClientBundle::reveal_transition", "WitnessBundle::with"],
        kani: Kani::No,
        native: "up to 4 payments of 1..2 contracts sharing outputs among three wallets, to blinded seals (fresh and reused) and witness outputs; every consignment is validated by rgb-core and accepted by the receiver",
        reach: &["several payments to a seal", "long history", "seal used again", "change asked for with the seal", "witness output", "received coins paid further"],
    }],
};
