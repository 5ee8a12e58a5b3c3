//! C08: the contract state is exactly what the accepted operations say.
//# assumes: operations of one history are witnessed by one transaction each (see the finding of C07 on replaced witnesses)

use std::collections::BTreeMap;

use rgbcore::vm::{ContractStateAccess, ContractStateEvolve};
use rgbcore::{Extension, Opout, Transition, XChain};
use rgbstd::containers::PubWitness;
use rgbstd::persistence::{
    ContractStateRead, MemContract, MemState, State, StateError, StateReadProvider,
    StateWriteProvider,
};

use crate::c07::{add, history, outs, Hist};
use crate::fx;
use crate::registry::{Contract, Kani, Property};
use crate::src::Src;
use crate::st::{self, Op, Real};
use crate::{post, reach};

/// All operations with more of their assignments concealed or revealed.
fn other_view<S: Src>(s: &mut S, op: &Op) -> Op {
    let mut o = op.clone();
    for (_, v) in o.lists.values_mut() {
        for i in v.iter_mut() {
            i.kind = s.below(4);
        }
    }
    o
}

fn sequence<S: Src>(s: &mut S) {
    let status: Vec<u32> = (0..2).map(|_| s.below(4)).collect();
    let mut h = history(s, 2, 2, 100);
    let foreign = history(s, 1, 2, 200);
    // order in which the operations arrive, with repetitions in other views
    let n = h.ops.len();
    let mut order: Vec<usize> = vec![0];
    let mut rest: Vec<usize> = (1..n).collect();
    while !rest.is_empty() {
        let k = s.below(rest.len() as u32) as usize;
        order.push(rest.remove(k));
    }
    let mut repeats = vec![];
    for _ in 0..s.below(3) {
        let k = s.below(n as u32) as usize;
        let op = other_view(s, &h.ops[k].0);
        let real = op.real(h.contract);
        post!(real.id() == h.ops[k].1, "fixture: views of one operation share the identifier");
        h.ops.push((op, real.id()));
        h.reals.push(real);
        repeats.push(h.ops.len() - 1);
    }
    reach!(s, order.len() == 4 && order[1] > order[2] && repeats.len() == 2, "out of order with repetitions");
    reach!(s, order.len() == 1 && repeats.is_empty(), "genesis alone");
    order.extend(repeats);
    let mut state = MemState::in_memory();
    let mut m = MemContract::init((&h.schema, h.contract));
    for k in &order {
        let w = h.ops[*k].0.witness;
        add(&mut state, &h, *k, st::ord(status[w as usize]));
        m.evolve_state(h.reals[*k].op_ref(st::wid(w), st::ord(status[w as usize]))).unwrap();
    }
    for k in 0..foreign.ops.len() {
        add(&mut state, &foreign, k, st::ord(status[foreign.ops[k].0.witness as usize]));
    }
    check(&state, &h, &status);
    check(&state, &foreign, &status);
    post!(st::reported(&m) == st::expected(&h.ops, &status, h.limits, false), "evolve: exactly what the operations say");
    // everything accepted was kept: bring all witnesses to life
    let alive = [3, 1];
    state.update_witnesses(&st::resolver(&alive), 0).unwrap();
    let now: Vec<u32> = alive.to_vec();
    check(&state, &h, &now);
    check(&state, &foreign, &now);
    post!(state.contract_state(fx::contract_id(9)).is_err(), "state: an unknown contract has no state");
}

fn check(state: &MemState, h: &Hist, status: &[u32]) {
    let c = state.contract_state(h.contract).unwrap();
    let got = st::reported(&c);
    let want = st::expected(&h.ops, status, h.limits, false);
    post!(got.rows == want.rows, "state: exactly the revealed assignments, with operation, position, seal and witness");
    post!(got.globals == want.globals, "state: exactly the global items, newest first, within the limit");
    post!(st::lookups_agree(&c, &got, &outs(h), &[1, 2, 3]), "state: lookups by output and type agree");
    post!(c.contract_id() == h.contract && c.schema_id() == h.schema.schema_id(), "state: contract and schema");
    post!(c.global(rgbcore::GlobalStateType::with(99)).is_err(), "state: a type unknown to the schema has no global state");
}

/// State of a contract brought in by a consignment or a bundle.
fn consigned<S: Src>(s: &mut S) {
    let status: Vec<u32> = (0..3).map(|_| s.below(4)).collect();
    let mut h = history(s, 0, 1, 100);
    h.ops.truncate(1);
    h.reals.truncate(1);
    let limits = h.limits;
    // an extension, and transitions of which some spend its outputs
    let with_ext = s.bool();
    let mut ext = None;
    if with_ext {
        let op = st::draw_op(s, 2, 150, 1);
        let Real::E(e) = op.real(h.contract) else { unreachable!() };
        ext = Some((op, e));
    }
    let n = s.below(4);
    let mut bundles = vec![];
    let mut per_witness: BTreeMap<u32, Vec<Transition>> = BTreeMap::new();
    let mut closers: Vec<u32> = vec![];
    let key = |w: u32| st::ord(status[w as usize]);
    for k in 0..n {
        let mut op = st::draw_op(s, 1, 160 + k as u64, 3);
        let spends = s.bool();
        if let (Some((_, e)), true) = (&ext, spends) {
            use rgbcore::Operation;
            op.ins = vec![Opout::new(e.id(), fx::aty(1), k as u16)];
            closers.push(op.witness);
        }
        let Real::T(t) = op.real(h.contract) else { unreachable!() };
        per_witness.entry(op.witness).or_default().push(t.clone());
        use rgbcore::Operation;
        h.ops.push((op, t.id()));
        h.reals.push(Real::T(t));
    }
    for (w, ts) in &per_witness {
        use rgbcore::Operation;
        let entries: Vec<_> = ts.iter().enumerate().map(|(i, t)| (i as u32, t.id())).collect();
        let b = fx::bundle(fx::method(w % 2), &entries, ts.clone());
        bundles.push((*w, b));
    }
    let mut exts: Vec<Extension> = vec![];
    if let Some((mut op, e)) = ext {
        if let Some(w) = closers.first() {
            use rgbcore::Operation;
            op.witness = *w;
            h.ops.push((op, e.id()));
            h.reals.push(Real::E(e.clone()));
        }
        exts.push(e);
    }
    // an extension counts from the first live transaction which closes it
    let first = closers.iter().map(|w| key(*w)).filter(|o| o.is_valid()).min();
    closers.retain(|w| first.is_none() || first == Some(key(*w)));
    reach!(s, first.is_some(), "extension closed by a live transition");
    let Real::G(g) = &h.reals[0] else { unreachable!() };
    let pw = |w: u32| XChain::Bitcoin(PubWitness::Txid(fx::txid(w + 1)));
    let mut state = State::<st::Prov>::default();
    let split = s.bool();
    let miss = s.below(4);
    let mut res = st::resolver(&status);
    if miss < 3 {
        res.0.remove(&st::wid(miss));
    }
    let needed = per_witness.contains_key(&miss);
    let in_consignment: Vec<_> =
        if split { bundles.iter().take(0).cloned().collect() } else { bundles.clone() };
    let mut c = fx::consignment::<true>(
        g.clone(),
        &[],
        in_consignment.iter().map(|(w, b)| fx::witness_bundle(pw(*w), vec![b.clone()])).collect(),
        if split { vec![] } else { exts.clone() },
    );
    c.schema = h.schema.clone();
    let r = state.update_from_consignment(&c, &res);
    reach!(s, split && n == 3, "by bundles");
    if split {
        post!(r.is_ok(), "consignment: genesis alone is accepted");
        h.ops.retain(|(o, _)| o.kind != 2);
        h.reals.retain(|r| !matches!(r, Real::E(_)));
        for (w, b) in &bundles {
            let r = state.update_from_bundle(h.contract, b, st::wid(*w), &res);
            post!(r.is_ok() == (*w != miss), "bundle: refused exactly when its witness is not resolved");
            if *w == miss {
                post!(
                    matches!(r, Err(StateError::Resolver(x, _)) if x == st::wid(*w)),
                    "bundle: names the witness"
                );
            }
            post!(
                matches!(
                    state.update_from_bundle(fx::contract_id(8), b, st::wid(*w), &res),
                    Err(StateError::Inconsistency(_))
                ),
                "bundle: an unknown contract is refused"
            );
        }
        let keep: Vec<bool> = h.ops.iter().map(|(o, _)| o.kind == 0 || o.witness != miss).collect();
        let mut it = keep.iter();
        h.ops.retain(|_| *it.next().unwrap());
    } else {
        reach!(s, needed, "witness not resolved");
        post!(r.is_ok() != needed, "consignment: refused exactly when a witness is not resolved");
        if needed {
            return;
        }
    }
    let v = state.contract_state(h.contract).unwrap();
    let got = st::reported(&v);
    let mut want = st::expected(&h.ops, &status, limits, false);
    for w in closers {
        for (o, _) in h.ops.iter_mut().filter(|(o, _)| o.kind == 2) {
            o.witness = w;
        }
        want = st::expected(&h.ops, &status, limits, false);
        if got == want {
            break;
        }
    }
    post!(got.rows == want.rows, "consignment: exactly the revealed assignments of its operations");
    post!(got.globals == want.globals, "consignment: exactly the global items of its operations");
}

/// The listing as the callers read it.
fn listing<S: Src>(s: &mut S) {
    use amplify::Wrapper;
    use std::borrow::Borrow;
    let n = s.below(4) as usize;
    let mut h = history(s, 0, 1, 100);
    h.ops[0].0.globals = vec![(st::GTY2, (0..n).map(|k| vec![k as u8, 7]).collect())];
    if n == 0 {
        h.ops[0].0.globals.clear();
    }
    let Real::G(g) = h.ops[0].0.real(h.contract) else { unreachable!() };
    let mut state = MemState::in_memory();
    state.register_contract(&h.schema, &g).unwrap();
    use rgbcore::Operation;
    let c = state.contract_state(g.contract_id()).unwrap();
    reach!(s, n == 2, "two items");
    let got: Vec<Vec<u8>> = c
        .global(rgbcore::GlobalStateType::with(st::GTY2))
        .unwrap()
        .map(|d| {
            let d: &rgbcore::DataState = d.borrow();
            d.as_inner().to_vec()
        })
        .collect();
    let mut want: Vec<Vec<u8>> = (0..n).map(|k| vec![k as u8, 7]).collect();
    want.reverse();
    post!(got == want, "listing: all items, newest first");
}

pub const PROPERTY: Property = Property {
    id: "C08",
    module: "c08",
    contracts: &[
        Contract {
            name: "sequence",
            f: sequence,
            fns: &[
                "MemState::register_contract", "MemState::update_contract", "MemState::contract_state",
                "MemContractState::new", "MemContractState::add_operation",
                "MemContractState::add_assignments", "MemContractWriter::add_genesis",
                "MemContractWriter::add_transition", "MemContractWriter::add_extension",
                "MemContract::evolve_state", "MemContract::global", "OutputAssignment::with_witness",
                "OutputAssignment::with_no_witness", "OpWitness::from",
            ],
            kani: Kani::No,
            native: "histories of genesis, up to 2 transitions, an extension and 2 repetitions in any order and any view",
            reach: &["out of order with repetitions", "genesis alone"],
        },
        Contract {
            name: "consigned",
            f: consigned,
            fns: &["State::update_from_consignment", "State::update_from_bundle", "State::contract_state"],
            kani: Kani::No,
            native: "consignments with up to 3 transitions under 3 witnesses and an extension",
            reach: &["extension closed by a live transition", "by bundles", "witness not resolved"],
        },
    ],
    findings: &[Contract {
        name: "listing",
        f: listing,
        fns: &["MemContract::global"],
        kani: Kani::No,
        native: "up to 3 global items in genesis",
        reach: &["two items"],
    }],
};
