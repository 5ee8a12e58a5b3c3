//! C09: index lookups return exactly what was registered.
//# assumes: seals and witnesses of one operation are on the same chain (the code panics otherwise)

use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use amplify::ByteArray;
use bp::dbc::opret::OpretProof;
use bp::dbc::Anchor;
use rgbcore::{
    BundleId, ContractId, OpId, Operation, Opout, SecretSeal, TypedAssigns, XChain, XOutpoint,
    XOutputSeal, XWitnessId,
};
use rgbstd::containers::{AnchorSet, Fascia, PubWitness};
use rgbstd::persistence::{
    IndexReadProvider, IndexWriteProvider, MemIndex, StateWriteProvider, Stock,
};
use strict_encoding::StrictDumb;

use crate::fx;
use crate::registry::{Contract, Kani, Property};
use crate::src::Src;
use crate::st;
use crate::toy::{shows_seal, view};
use crate::{post, reach, world};

fn bid(n: u32) -> BundleId { BundleId::from_byte_array(fx::b32(4000 + n)) }

#[derive(Clone, Default)]
struct Model {
    contracts: BTreeSet<ContractId>,
    op: BTreeMap<OpId, BundleId>,
    bundle: BTreeMap<BundleId, (ContractId, BTreeSet<XWitnessId>)>,
    outs: BTreeSet<(ContractId, XOutputSeal, Opout)>,
    terms: BTreeSet<(XChain<SecretSeal>, Opout)>,
}

struct Universe {
    contracts: Vec<ContractId>,
    ops: Vec<OpId>,
    bundles: Vec<BundleId>,
    outs: BTreeSet<XOutpoint>,
    terms: BTreeSet<XChain<SecretSeal>>,
}

fn compare(i: &MemIndex, m: &Model, u: &Universe) {
    for op in &u.ops {
        post!(i.bundle_id_for_op(*op).ok() == m.op.get(op).copied(), "operation: leads to its bundle, and only then");
    }
    for b in &u.bundles {
        let got = i.bundle_info(*b).ok().map(|(w, c)| {
            let v: Vec<_> = w.collect();
            let s: BTreeSet<_> = v.iter().copied().collect();
            assert_eq!(v.len(), s.len(), "bundle: each witness once");
            (c, s)
        });
        post!(got == m.bundle.get(b).cloned(), "bundle: leads to its contract and all of its witnesses");
    }
    for c in &u.contracts {
        for o in &u.outs {
            let want: BTreeSet<Opout> = m
                .outs
                .iter()
                .filter(|(c2, s, _)| c2 == c && XOutputSeal::to_outpoint(s) == *o)
                .map(|(_, _, o)| *o)
                .collect();
            match i.opouts_by_outputs(*c, [*o]) {
                Ok(got) => {
                    post!(m.contracts.contains(c), "output: an unknown contract is refused");
                    post!(!want.is_empty(), "output: an output without assignments is refused");
                    post!(got == want, "output: exactly the assignments closed over it for the contract");
                }
                Err(_) => post!(want.is_empty(), "output: known assignments are found"),
            }
        }
        // several outputs at once
        let known: Vec<XOutpoint> = u
            .outs
            .iter()
            .filter(|o| m.outs.iter().any(|(c2, s, _)| c2 == c && XOutputSeal::to_outpoint(s) == **o))
            .copied()
            .collect();
        if m.contracts.contains(c) {
            let all: BTreeSet<Opout> = m.outs.iter().filter(|(c2, ..)| c2 == c).map(|(_, _, o)| *o).collect();
            post!(i.opouts_by_outputs(*c, known.iter().copied()).unwrap() == all, "output: all outputs together");
        }
        post!(i.public_opouts(*c).is_ok() == m.contracts.contains(c), "contract: known exactly when registered");
    }
    for o in &u.outs {
        let want: BTreeSet<_> =
            m.outs.iter().filter(|(_, s, _)| XOutputSeal::to_outpoint(s) == *o).map(|(c, ..)| *c).collect();
        let got: BTreeSet<_> = i.contracts_assigning(BTreeSet::from([*o])).unwrap().collect();
        post!(got == want, "output: exactly the contracts assigning to it");
    }
    let all: BTreeSet<_> = m.outs.iter().map(|(c, ..)| *c).collect();
    let got: BTreeSet<_> = i.contracts_assigning(u.outs.clone()).unwrap().collect();
    post!(got == all, "output: contracts assigning to any of the outputs");
    for t in &u.terms {
        let want: BTreeSet<_> = m.terms.iter().filter(|(x, _)| x == t).map(|(_, o)| *o).collect();
        post!(i.opouts_by_terminals([*t]).unwrap() == want, "terminal: exactly the assignments concealed under it");
    }
    let want: BTreeSet<_> = m.terms.iter().map(|(_, o)| *o).collect();
    post!(i.opouts_by_terminals(u.terms.iter().copied()).unwrap() == want, "terminal: all terminals together");
}

fn sequence<S: Src>(s: &mut S) {
    let mut i = MemIndex::in_memory();
    let mut m = Model::default();
    let mut u = Universe {
        contracts: (0..2).map(fx::contract_id).collect(),
        ops: (0..3).map(fx::opid).collect(),
        bundles: (0..2).map(bid).collect(),
        outs: BTreeSet::new(),
        terms: BTreeSet::new(),
    };
    if s.bool() {
        m.contracts.insert(u.contracts[0]);
        post!(i.register_contract(u.contracts[0]).unwrap(), "contract: new");
    }
    let n = 1 + s.below(5);
    for _ in 0..n {
        let kind = s.below(5);
        let c = u.contracts[s.below(2) as usize];
        match kind {
            0 => {
                let r = i.register_contract(c).unwrap();
                post!(r == m.contracts.insert(c), "contract: reports whether it was new");
            }
            1 => {
                let (b, w) = (u.bundles[s.below(2) as usize], st::wid(s.below(2)));
                let r = i.register_bundle(b, w, c);
                match m.bundle.get_mut(&b) {
                    Some((c2, ws)) if *c2 == c => {
                        post!(matches!(r, Ok(false)), "bundle: known bundle of the same contract is accepted");
                        ws.insert(w);
                    }
                    Some(_) => {
                        reach!(s, true, "bundle of two contracts");
                        post!(r.is_err(), "bundle: another contract is refused");
                    }
                    None => {
                        post!(matches!(r, Ok(true)), "bundle: new");
                        m.bundle.insert(b, (c, BTreeSet::from([w])));
                    }
                }
            }
            2 => {
                let (o, b) = (u.ops[s.below(3) as usize], u.bundles[s.below(2) as usize]);
                let r = i.register_operation(o, b);
                match m.op.get(&o) {
                    Some(b2) if *b2 == b => post!(matches!(r, Ok(false)), "operation: known"),
                    Some(_) => {
                        reach!(s, true, "operation of two bundles");
                        post!(r.is_err(), "operation: another bundle is refused");
                    }
                    None => {
                        post!(matches!(r, Ok(true)), "operation: new");
                        m.op.insert(o, b);
                    }
                }
            }
            k => {
                let op = u.ops[s.below(3) as usize];
                let ty = fx::aty(1 + s.below(2));
                let w = s.below(2);
                let class = s.below(4);
                let len = 1 + s.below(3);
                let items: Vec<(u32, bool, u32)> = (0..len)
                    .map(|_| (s.below(4), k == 4 && s.below(3) == 0, [0, 1, 100][s.below(3) as usize]))
                    .collect();
                let ok = m.contracts.contains(&c);
                reach!(s, ok && k == 4, "transition indexed");
                reach!(s, !ok, "unknown contract");
                let (mut o2, mut t2) = (BTreeSet::new(), BTreeSet::new());
                let r;
                if k == 3 {
                    let seal = |n: u32| XChain::Bitcoin(fx::genesis_seal(n / 100, n % 100));
                    let list: Vec<_> = items.iter().map(|(v, _, n)| (*v, seal(*n), *n)).collect();
                    for (no, (v, _, n)) in items.iter().enumerate() {
                        use commit_verify::Conceal;
                        let opout = Opout::new(op, ty, no as u16);
                        let out = fx::output_seal(n / 100, n % 100);
                        u.outs.insert(XOutputSeal::to_outpoint(&out));
                        u.terms.insert(seal(*n).conceal());
                        if shows_seal(*v) {
                            o2.insert((c, out, opout));
                        } else {
                            t2.insert((seal(*n).conceal(), opout));
                        }
                    }
                    r = match fx::typed(class, &list) {
                        TypedAssigns::Declarative(v) => i.index_genesis_assignments(c, &v, op, ty),
                        TypedAssigns::Fungible(v) => i.index_genesis_assignments(c, &v, op, ty),
                        TypedAssigns::Structured(v) => i.index_genesis_assignments(c, &v, op, ty),
                        TypedAssigns::Attachment(v) => i.index_genesis_assignments(c, &v, op, ty),
                    };
                } else {
                    let seal = |n: u32, on: bool| {
                        XChain::Bitcoin(if on {
                            fx::witness_seal(n / 100, n % 100)
                        } else {
                            fx::graph_seal(n / 100, n % 100)
                        })
                    };
                    let list: Vec<_> = items.iter().map(|(v, on, n)| (*v, seal(*n, *on), *n)).collect();
                    for (no, (v, on, n)) in items.iter().enumerate() {
                        use commit_verify::Conceal;
                        let opout = Opout::new(op, ty, no as u16);
                        let out = if *on {
                            XChain::Bitcoin(rgbcore::OutputSeal::with(fx::method(n / 100), fx::txid(w + 1), n % 100))
                        } else {
                            fx::output_seal(n / 100, n % 100)
                        };
                        u.outs.insert(XOutputSeal::to_outpoint(&out));
                        u.terms.insert(seal(*n, *on).conceal());
                        if shows_seal(*v) {
                            o2.insert((c, out, opout));
                        } else {
                            t2.insert((seal(*n, *on).conceal(), opout));
                        }
                    }
                    let wid = st::wid(w);
                    r = match fx::typed(class, &list) {
                        TypedAssigns::Declarative(v) => i.index_transition_assignments(c, &v, op, ty, wid),
                        TypedAssigns::Fungible(v) => i.index_transition_assignments(c, &v, op, ty, wid),
                        TypedAssigns::Structured(v) => i.index_transition_assignments(c, &v, op, ty, wid),
                        TypedAssigns::Attachment(v) => i.index_transition_assignments(c, &v, op, ty, wid),
                    };
                }
                post!(r.is_ok() == ok, "assignments: accepted exactly for a registered contract");
                if ok {
                    m.outs.extend(o2);
                    m.terms.extend(t2);
                }
            }
        }
    }
    // outputs which nothing is assigned to
    u.outs.insert(XOutputSeal::to_outpoint(&fx::output_seal(0, 50)));
    let methods: BTreeSet<_> = m.outs.iter().map(|(c, s, _)| (*c, XOutputSeal::to_outpoint(s))).collect();
    let seals: BTreeSet<_> = m.outs.iter().map(|(c, s, _)| (*c, *s)).collect();
    reach!(s, seals.len() > methods.len(), "output used with both methods");
    compare(&i, &m, &u);
}

/// More assignments under one concealed seal than an entry can hold: refused,
/// and what was known stays.
fn overflow<S: Src>(s: &mut S) {
    use commit_verify::Conceal;
    let mut i = MemIndex::in_memory();
    let c = fx::contract_id(0);
    i.register_contract(c).unwrap();
    let seal = XChain::Bitcoin(fx::graph_seal(0, 1));
    let n = 253 + s.below(6);
    let again = s.bool();
    let mut want = BTreeSet::new();
    for k in 0..n {
        let v = [view(1 + 2 * s.below(2), seal, rgbcore::VoidState::default())];
        let op = fx::opid(k);
        let r = i.index_transition_assignments(c, &v, op, fx::aty(1), st::wid(0));
        if r.is_ok() {
            want.insert(Opout::new(op, fx::aty(1), 0));
        } else {
            reach!(s, true, "full");
            post!(k >= 255, "overflow: refused only when full");
        }
    }
    if again {
        let v = [view(1, seal, rgbcore::VoidState::default())];
        let _ = i.index_transition_assignments(c, &v, fx::opid(0), fx::aty(1), st::wid(0));
    }
    post!(i.opouts_by_terminals([seal.conceal()]).unwrap() == want, "overflow: what was registered stays");
}

/// Bundles brought in through the stock.
fn fascia<S: Src>(s: &mut S) {
    use commit_verify::Conceal;
    let schema = st::schema(4, 4);
    let mut stock = Stock::in_memory();
    let n = 1 + s.below(2);
    let mut m = Model::default();
    let mut u = Universe {
        contracts: vec![],
        ops: vec![],
        bundles: vec![],
        outs: BTreeSet::new(),
        terms: BTreeSet::new(),
    };
    let mut bundles = BTreeMap::new();
    let w = s.below(2);
    for k in 0..n {
        let g = fx::genesis(k, fx::assignments([]));
        let c = g.contract_id();
        u.contracts.push(c);
        m.contracts.insert(c);
        stock.as_state_provider_mut().register_contract(&schema, &g).unwrap();
        stock.as_index_provider_mut().register_contract(c).unwrap();
        let mut ts = vec![];
        for j in 0..1 + s.below(2) {
            let mut op = st::draw_op(s, 1, (10 * k + j) as u64, 1);
            op.witness = w;
            op.ins = vec![Opout::new(fx::opid(50 + 10 * k + j), fx::aty(1), 0)];
            let st::Real::T(t) = op.real(c) else { unreachable!() };
            let id = t.id();
            u.ops.push(id);
            for (ty, (_, items)) in &op.lists {
                for (no, i) in items.iter().enumerate() {
                    let opout = Opout::new(id, fx::aty(*ty as u32), no as u16);
                    let out = op.out_seal(i);
                    u.outs.insert(XOutputSeal::to_outpoint(&out));
                    let seal: XChain<_> = XChain::Bitcoin(if i.on_witness {
                        fx::witness_seal(i.seal % 2, i.seal)
                    } else {
                        fx::graph_seal(i.seal % 2, i.seal)
                    });
                    if shows_seal(i.kind) {
                        m.outs.insert((c, out, opout));
                    } else {
                        m.terms.insert((seal.conceal(), opout));
                    }
                    u.terms.insert(seal.conceal());
                }
            }
            ts.push(t);
        }
        let entries: Vec<_> = ts.iter().enumerate().map(|(i, t)| (i as u32, t.id())).collect();
        let b = fx::bundle(fx::method(0), &entries, ts.clone());
        u.bundles.push(b.bundle_id());
        m.bundle.insert(b.bundle_id(), (c, BTreeSet::from([st::wid(w)])));
        for t in &ts {
            m.op.insert(t.id(), b.bundle_id());
        }
        bundles.insert(c, b);
    }
    let msgs: Vec<(u32, [u8; 32])> = vec![(1, fx::b32(9))];
    let f = Fascia {
        witness: XChain::Bitcoin(PubWitness::Txid(fx::txid(w + 1))),
        anchor: AnchorSet::Opret(Anchor::new(fx::merkle_block(&msgs, &[]), OpretProof::strict_dumb())),
        bundles: Confined::from_checked(
            bundles.into_iter().map(|(c, b)| (c, rgbstd::containers::BundleDichotomy::with(b, None))).collect::<BTreeMap<_, _>>(),
        ),
    };
    let status: Vec<u32> = (0..2).map(|_| s.below(4)).collect();
    let times = 1 + s.below(2);
    reach!(s, n == 2 && times == 2, "two contracts, repeated");
    for _ in 0..times {
        stock.consume_fascia(f.clone(), st::resolver(&status)).unwrap();
    }
    compare(stock.as_index_provider(), &m, &u);
}

/// The same assignment in the view.
fn veiled<X: rgbcore::ExposedState>(
    a: &rgbcore::Assign<X, rgbcore::GenesisSeal>,
    kind: u32,
) -> rgbcore::Assign<X, rgbcore::GenesisSeal> {
    match (a.revealed_seal(), a.as_revealed_state()) {
        (Some(l), Some(x)) => view(kind, l, x.clone()),
        _ => a.clone(),
    }
}

/// Enters what the operation assigns.
fn enter<L: rgbcore::ExposedSeal>(
    m: &mut Model,
    u: &mut Universe,
    c: ContractId,
    id: OpId,
    list: &rgbcore::Assignments<L>,
    place: impl Fn(XChain<L>) -> XOutputSeal,
) {
    for (ty, l) in list.iter() {
        for no in 0..l.len_u16() {
            let opout = Opout::new(id, *ty, no);
            match l.revealed_seal_at(no).unwrap() {
                Some(seal) => {
                    u.outs.insert(XOutputSeal::to_outpoint(&place(seal)));
                    m.outs.insert((c, place(seal), opout));
                }
                None => {
                    let secret = l.to_confidential_seals()[no as usize];
                    u.terms.insert(secret);
                    m.terms.insert((secret, opout));
                }
            }
        }
    }
}

/// A transfer with genesis assignments of every kind, revealed or with concealed
/// seals, extensions and transitions. Concealed state and attachments in a genesis
/// do not pass the validation.
fn consigned<S: Src>(s: &mut S) {
    let mut chain = world::Chain::default();
    let sc = crate::c10::scene(1);
    let mut cons = if s.bool() {
        chain = sc.chain.clone();
        sc.transfer.clone().into_consignment()
    } else {
        let coins: Vec<_> = (0..1 + s.below(3))
            .map(|_| world::Coin { kind: [0, 1, 2, 4][s.below(4) as usize], seal: 1 + s.below(2), value: 5 })
            .collect();
        let made = world::issue(0, 0, &coins, bp::seals::txout::CloseMethod::OpretFirst).into_consignment();
        let mut c = sc.transfer.clone().into_consignment();
        c.bundles = Default::default();
        c.terminals = Default::default();
        c.genesis = made.genesis.clone();
        let mut lists = BTreeMap::new();
        for (ty, l) in c.genesis.assignments.iter() {
            macro_rules! veil {
                ($v:expr) => {
                    Confined::from_iter_checked($v.iter().map(|a| veiled(a, s.below(2))).collect::<Vec<_>>())
                };
            }
            lists.insert(*ty, match l {
                TypedAssigns::Declarative(v) => TypedAssigns::Declarative(veil!(v)),
                TypedAssigns::Fungible(v) => TypedAssigns::Fungible(veil!(v)),
                TypedAssigns::Structured(v) => TypedAssigns::Structured(veil!(v)),
                TypedAssigns::Attachment(v) => TypedAssigns::Attachment(veil!(v)),
            });
        }
        c.genesis.assignments = fx::assignments(lists);
        c
    };
    let c = cons.genesis.contract_id();
    for n in 0..s.below(3) {
        let class = s.below(4);
        let seal = XChain::Bitcoin(fx::genesis_seal(s.below(2), 12 + s.below(3)));
        let kind = s.below(4);
        let list = fx::assignments([(fx::aty(7 + class), fx::typed(class, &[(kind, seal, 1)]))]);
        cons.extensions.push(fx::extension(c, n as u64, list)).unwrap();
    }
    let mut m = Model::default();
    let mut u = Universe {
        contracts: vec![c, fx::contract_id(0)],
        ops: vec![fx::opid(0)],
        bundles: vec![bid(0)],
        outs: BTreeSet::new(),
        terms: BTreeSet::new(),
    };
    m.contracts.insert(c);
    let g = &cons.genesis;
    enter(&mut m, &mut u, c, g.id(), &g.assignments, |l| l.to_output_seal().unwrap());
    for e in &cons.extensions {
        enter(&mut m, &mut u, c, e.id(), &e.assignments, |l| l.to_output_seal().unwrap());
    }
    let valid = match cons.clone().validate(&chain, true) {
        Ok(v) => v,
        Err(_) => {
            s.assume(false);
            return;
        }
    };
    let mut stock = Stock::in_memory();
    stock.import_kit(world::kit(0)).unwrap();
    // the seal of the terminal becomes known by the acceptance
    if s.bool() {
        stock.store_secret_seal(sc.secret).unwrap();
        cons = cons.reveal_terminal_seals::<std::convert::Infallible>(|x| {
            use commit_verify::Conceal;
            Ok((x == sc.secret.conceal()).then_some(sc.secret))
        }).unwrap();
    }
    for wb in cons.bundles.iter() {
        let w = rgbstd::containers::ToWitnessId::to_witness_id(&wb.pub_witness);
        for b in wb.anchored_bundles.bundles() {
            let id = b.bundle_id();
            u.bundles.push(id);
            m.bundle.entry(id).or_insert((c, BTreeSet::new())).1.insert(w);
            for (opid, t) in b.known_transitions.iter() {
                u.ops.push(*opid);
                m.op.insert(*opid, id);
                enter(&mut m, &mut u, c, *opid, &t.assignments, |l| {
                    l.try_to_output_seal(w).unwrap()
                });
            }
        }
    }
    stock.accept_transfer(valid, &chain).unwrap();
    reach!(s, !cons.bundles.is_empty(), "with transitions");
    reach!(s, cons.extensions.iter().any(|e| e.assignments.contains_key(&fx::aty(10))), "attachment");
    reach!(s, cons.genesis.assignments.len() > 2, "genesis");
    compare(stock.as_index_provider(), &m, &u);
}

pub const PROPERTY: Property = Property {
    id: "C09",
    module: "c09",
    contracts: &[
        Contract {
            name: "sequence",
            f: sequence,
            fns: &[
                "MemIndex::register_contract", "MemIndex::register_bundle", "MemIndex::register_operation",
                "MemIndex::index_genesis_assignments", "MemIndex::index_transition_assignments",
                "MemIndex::extend_terminals", "MemIndex::add_terminal", "MemIndex::contracts_assigning",
                "MemIndex::opouts_by_outputs", "MemIndex::opouts_by_terminals",
                "MemIndex::bundle_id_for_op", "MemIndex::bundle_info", "MemIndex::public_opouts",
            ],
            kani: Kani::No,
            native: "sequences of up to 6 registrations over 2 contracts, 2 bundles, 3 operations, 2 witnesses",
            reach: &[
                "bundle of two contracts", "operation of two bundles", "transition indexed",
                "unknown contract", "output used with both methods",
            ],
        },
        Contract {
            name: "overflow",
            f: overflow,
            fns: &["MemIndex::add_terminal"],
            kani: Kani::No,
            native: "253 to 258 assignments under one concealed seal",
            reach: &["full"],
        },
        Contract {
            name: "fascia",
            f: fascia,
            fns: &["Index::index_bundle", "Stock::consume_fascia"],
            kani: Kani::No,
            native: "fascias of 1 or 2 contracts with up to 2 transitions each",
            reach: &["two contracts, repeated"],
        },
        Contract {
            name: "consigned",
            f: consigned,
            fns: &["Index::index_consignment", "Index::index_genesis", "Index::index_extension", "Index::index_bundle", "Stock::accept_transfer"],
            kani: Kani::No,
            native: "consignments with up to 3 genesis assignments, up to 2 extensions and a transition",
            reach: &["with transitions", "attachment", "genesis"],
        },
    ],
    findings: &[],
};
