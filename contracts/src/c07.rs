//! C07: only state whose witness is live is reported.
//# assumes: operations of one history are witnessed by one transaction each (see the finding on replaced witnesses)

use std::collections::{BTreeMap, BTreeSet, HashMap};

use rgbcore::vm::{ContractStateEvolve, WitnessOrd};
use rgbcore::{OpId, Operation, Opout, Schema, VoidState, XChain, XOutputSeal, XWitnessId};
use rgbstd::OutputAssignment;
use rgbstd::persistence::{
    ContractStateRead, ContractStateWrite, MemContract, MemState, State, StateReadProvider,
    StateWriteProvider,
};

use crate::fx;
use crate::registry::{Contract, Kani, Property};
use crate::src::Src;
use crate::st::{self, Op, Real};
use crate::{post, reach};

/// A drawn history and its contract.
pub struct Hist {
    pub ops: Vec<(Op, OpId)>,
    pub reals: Vec<Real>,
    pub contract: rgbcore::ContractId,
    pub schema: Schema,
    pub limits: (u32, u32),
}

pub fn history<S: Src>(s: &mut S, max_transitions: u32, witnesses: u32, base: u64) -> Hist {
    let limits = (1 + s.below(3), 4);
    let schema = st::schema(limits.0, limits.1);
    let mut genesis = st::draw_op(s, 0, base, 1);
    genesis.nonce = base;
    let g = genesis.real(fx::contract_id(0));
    let contract = match &g {
        Real::G(g) => g.contract_id(),
        _ => unreachable!(),
    };
    let mut ops = vec![(genesis, g.id())];
    let mut reals = vec![g];
    let n = s.below(max_transitions + 1);
    let e = s.below(2);
    for k in 0..n + e {
        let kind = if k < n { 1 } else { 2 };
        let op = st::draw_op(s, kind, base + 1 + k as u64, witnesses);
        let r = op.real(contract);
        ops.push((op, r.id()));
        reals.push(r);
    }
    Hist { ops, reals, contract, schema, limits }
}

pub fn add(state: &mut MemState, h: &Hist, k: usize, o: WitnessOrd) {
    match &h.reals[k] {
        Real::G(g) => {
            state.register_contract(&h.schema, g).unwrap();
        }
        Real::T(t) => state
            .update_contract(h.contract)
            .unwrap()
            .expect("known contract")
            .add_transition(t, st::wid(h.ops[k].0.witness), o)
            .unwrap(),
        Real::E(e) => state
            .update_contract(h.contract)
            .unwrap()
            .expect("known contract")
            .add_extension(e, st::wid(h.ops[k].0.witness), o)
            .unwrap(),
    }
}

pub fn outs(h: &Hist) -> BTreeSet<rgbcore::XOutpoint> {
    let mut v = BTreeSet::new();
    for (op, _) in &h.ops {
        for (_, list) in op.lists.values() {
            for i in list {
                v.insert(XOutputSeal::to_outpoint(&op.out_seal(i)));
            }
        }
    }
    v.insert(XOutputSeal::to_outpoint(&fx::output_seal(0, 40)));
    v
}

fn check_view(state: &MemState, h: &Hist, status: &[u32]) {
    let c = state.contract_state(h.contract).unwrap();
    let got = st::reported(&c);
    let want = st::expected(&h.ops, status, h.limits, false);
    post!(got.rows == want.rows, "view: exactly the assignments whose witness is live");
    post!(got.globals == want.globals, "view: exactly the global state whose witness is live");
    post!(st::lookups_agree(&c, &got, &outs(h), &[1, 2, 3]), "view: lookups by output agree with the listing");
    for rows in &want.rows {
        for (_, _, _, w) in rows {
            if let Some(w) = w {
                let n = (0..3).find(|n| st::wid(*n) == *w).unwrap();
                post!(c.witness_ord(*w) == Some(st::ord(status[n as usize])), "view: status of the witness");
            }
        }
    }
}

fn view<S: Src>(s: &mut S) {
    let status: Vec<u32> = (0..2).map(|_| s.below(4)).collect();
    let h = history(s, 2, 2, 100);
    let mut state = MemState::in_memory();
    for k in 0..h.ops.len() {
        add(&mut state, &h, k, st::ord(status[h.ops[k].0.witness as usize]));
    }
    reach!(s, h.ops.len() == 4 && status == [0, 1], "archived and tentative witnesses");
    check_view(&state, &h, &status);
    let used: BTreeSet<u32> = h.ops.iter().filter(|(o, _)| o.kind != 0).map(|(o, _)| o.witness).collect();
    for n in 0..3u32 {
        match state.is_valid_witness(st::wid(n)) {
            Ok(v) => {
                post!(used.contains(&n), "witness: status of an unknown witness is not invented");
                post!(v == (status[n as usize] != 0), "witness: valid exactly when not archived");
            }
            Err(_) => post!(!used.contains(&n), "witness: known witness is found"),
        }
    }
    // the same history evolved for validation
    let mut m = MemContract::init((&h.schema, h.contract));
    for k in 0..h.ops.len() {
        let w = h.ops[k].0.witness;
        m.evolve_state(h.reals[k].op_ref(st::wid(w), st::ord(status[w as usize]))).unwrap();
    }
    let got = st::reported(&m);
    post!(got == st::expected(&h.ops, &status, h.limits, false), "evolve: exactly the state whose witness is live");
    post!(m.contract_id() == h.contract && m.schema_id() == h.schema.schema_id(), "evolve: contract and schema");
}

fn update<S: Src>(s: &mut S) {
    let mut status: Vec<u32> = (0..2).map(|_| s.below(5)).collect();
    let h = history(s, 2, 2, 100);
    let h2 = history(s, 1, 2, 200);
    let mut state = MemState::in_memory();
    for x in [&h, &h2] {
        for k in 0..x.ops.len() {
            add(&mut state, x, k, st::ord(status[x.ops[k].0.witness as usize]));
        }
    }
    let used: BTreeSet<u32> = h
        .ops
        .iter()
        .chain(&h2.ops)
        .filter(|(o, _)| o.kind != 0)
        .map(|(o, _)| o.witness)
        .collect();
    for _ in 0..2 {
        let after = s.below(5);
        let mut res = st::Resolver(BTreeMap::new());
        let mut failed = BTreeSet::new();
        let mut succeeded = 0;
        for n in 0..2u32 {
            let new = s.below(6);
            let old = status[n as usize];
            if new < 5 {
                res.0.insert(st::wid(n), st::ord(new));
            }
            if !used.contains(&n) || (old >= 2 && old - 1 < after.max(1)) {
                continue;
            }
            if new < 5 {
                status[n as usize] = new;
                succeeded += 1;
            } else {
                failed.insert(st::wid(n));
            }
            reach!(s, old == 0 && new == 1, "restored");
            reach!(s, old == 3 && new == 0, "archived");
            reach!(s, new == 5, "not resolved");
        }
        reach!(s, after == 3 && status[0] == 2, "deep enough to be skipped");
        let r = state.update_witnesses(&res, after).unwrap();
        post!(r.failed.keys().copied().collect::<BTreeSet<_>>() == failed, "update: exactly the unresolved witnesses reported");
        post!(r.succeeded == succeeded, "update: number of updated witnesses");
        check_view(&state, &h, &status);
        check_view(&state, &h2, &status);
    }
}

/// One assignment against a status table.
fn assignment<S: Src>(s: &mut S) {
    let witness = s.below(3);
    let mut filter = HashMap::new();
    let mut live = witness == 0;
    for n in 1..3 {
        let status = s.below(5);
        if status < 4 {
            filter.insert(st::wid(n), st::ord(status));
            if n == witness && status != 0 {
                live = true;
            }
        }
    }
    reach!(s, live && witness == 1, "live");
    reach!(s, !live && filter.contains_key(&st::wid(witness)), "archived");
    reach!(s, !live && !filter.contains_key(&st::wid(witness)), "unknown");
    let a = OutputAssignment {
        opout: Opout::new(fx::opid(1), fx::aty(1), 0),
        seal: fx::output_seal(0, 1),
        state: VoidState::default(),
        witness: (witness > 0).then(|| st::wid(witness)),
    };
    post!(a.check_witness(&filter) == live, "assignment: live exactly when its witness is");
}

/// A state provider which knows the validity of witnesses by their number.
mod vp {
    use nonasync::persistence::{CloneNoPersistence, Persistence, Persisting};
    use rgbcore::validation::ResolveWitness;
    use rgbcore::{ContractId, Genesis, Schema, XChain, XWitnessId};
    use rgbstd::persistence::{
        MemState, StateProvider, StateReadProvider, StateWriteProvider, StoreTransaction, UpdateRes,
    };

    #[derive(Clone, PartialEq, Eq, Debug)]
    pub struct Unknown;
    impl std::fmt::Display for Unknown {
        fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
    }
    impl std::error::Error for Unknown {}

    /// The first byte of the identifier says it: 0 archived, 1 live, else unknown.
    #[derive(Default)]
    pub struct ByFirstByte;
    impl std::fmt::Debug for ByFirstByte {
        fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
    }
    impl CloneNoPersistence for ByFirstByte {
        fn clone_no_persistence(&self) -> Self { ByFirstByte }
    }
    impl Persisting for ByFirstByte {
        fn persistence(&self) -> Option<&Persistence<Self>> { None }
        fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { None }
        fn as_mut_persistence(&mut self) -> &mut Option<Persistence<Self>> { unreachable!() }
    }
    impl StoreTransaction for ByFirstByte {
        type TransactionErr = <MemState as StoreTransaction>::TransactionErr;
        fn begin_transaction(&mut self) -> Result<(), Self::TransactionErr> { unreachable!() }
        fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { unreachable!() }
        fn rollback_transaction(&mut self) {}
    }
    impl StateReadProvider for ByFirstByte {
        type ContractRead<'a> = <MemState as StateReadProvider>::ContractRead<'a>;
        type Error = Unknown;
        fn contract_state(&self, _: ContractId) -> Result<Self::ContractRead<'_>, Unknown> { Err(Unknown) }
        fn is_valid_witness(&self, w: XWitnessId) -> Result<bool, Unknown> {
            match super::first(w) {
                0 => Ok(false),
                1 => Ok(true),
                _ => Err(Unknown),
            }
        }
    }
    impl StateWriteProvider for ByFirstByte {
        type ContractWrite<'a> = <MemState as StateWriteProvider>::ContractWrite<'a>;
        type Error = <MemState as StateWriteProvider>::Error;
        fn register_contract(&mut self, _: &Schema, _: &Genesis) -> Result<Self::ContractWrite<'_>, Self::Error> {
            unreachable!()
        }
        fn update_contract(&mut self, _: ContractId) -> Result<Option<Self::ContractWrite<'_>>, Self::Error> {
            unreachable!()
        }
        fn update_witnesses(&mut self, _: impl ResolveWitness, _: u32) -> Result<UpdateRes, Self::Error> {
            unreachable!()
        }
    }
    impl StateProvider for ByFirstByte {}
    #[allow(unused)]
    fn _x(_: XChain<()>) {}
}

fn first(w: XWitnessId) -> u8 {
    use amplify::ByteArray;
    match w {
        XChain::Bitcoin(t) | XChain::Liquid(t) => t.to_byte_array()[0],
        _ => 9,
    }
}

fn select<S: Src>(s: &mut S) {
    use amplify::ByteArray;
    use rgbstd::persistence::StateError;
    let n = s.below(4) as usize;
    let mut ids = vec![];
    for k in 0..n {
        let mut b = [k as u8; 32];
        b[0] = s.u8();
        let t = bp::Txid::from_byte_array(b);
        ids.push(if s.bool() { XChain::Liquid(t) } else { XChain::Bitcoin(t) });
    }
    let state = State::<vp::ByFirstByte>::default();
    let r = state.select_valid_witness(ids.iter());
    let mut want = None;
    let mut unknown = false;
    for w in &ids {
        match first(*w) {
            0 => continue,
            1 => want = Some(*w),
            _ => unknown = true,
        }
        break;
    }
    reach!(s, n == 3 && want == Some(ids[2]), "the last one is live");
    reach!(s, n == 3 && want.is_none() && !unknown, "all archived");
    reach!(s, unknown, "unknown");
    match r {
        Ok(w) => {
            post!(first(w) == 1, "select: a live witness");
            post!(want == Some(w), "select: the first live witness of the list");
        }
        Err(StateError::AbsentValidWitness) => post!(want.is_none() && !unknown, "select: refused only without a live witness"),
        Err(_) => post!(unknown, "select: fails only on an unknown witness"),
    }
}

#[cfg(kani)]
mod k {
    crate::proof_split!([kani::unwind(34)] select : 0 1 2 3);
}

/// The same operation under a replaced witness: the state must follow the live one.
fn replaced<S: Src>(s: &mut S) {
    let h = {
        let mut h = history(s, 0, 1, 100);
        let mut op = st::draw_op(s, 1, 300, 1);
        for (_, v) in op.lists.values_mut() {
            for i in v.iter_mut() {
                i.on_witness = false;
            }
        }
        op.globals.clear();
        let r = op.real(h.contract);
        h.ops.truncate(1);
        h.reals.truncate(1);
        h.ops.push((op, r.id()));
        h.reals.push(r);
        h
    };
    let mut state = MemState::in_memory();
    add(&mut state, &h, 0, WitnessOrd::Archived);
    let Real::T(t) = &h.reals[1] else { unreachable!() };
    let add2 = |state: &mut MemState, w: XWitnessId, o| {
        state.update_contract(h.contract).unwrap().unwrap().add_transition(t, w, o).unwrap()
    };
    add2(&mut state, st::wid(0), WitnessOrd::Archived);
    add2(&mut state, st::wid(1), WitnessOrd::Tentative);
    let c = state.contract_state(h.contract).unwrap();
    let got = st::reported(&c);
    let want = st::expected(&h.ops, &[1, 1], h.limits, false);
    reach!(s, want.rows[0].len() == 1, "right");
    for k in 0..4 {
        post!(got.rows[k].len() == want.rows[k].len(), "replaced: state with a live witness is reported");
    }
}

pub const PROPERTY: Property = Property {
    id: "C07",
    module: "c07",
    contracts: &[
        Contract {
            name: "select",
            f: select,
            fns: &["State::select_valid_witness"],
            kani: Kani::SplitBounded(4, "lists of up to 3 witnesses"),
            native: "lists of up to 3 witnesses, any status",
            reach: &["the last one is live", "all archived", "unknown"],
        },
        Contract {
            name: "assignment",
            f: assignment,
            fns: &["OutputAssignment::check_witness"],
            kani: Kani::No,
            native: "tables of 2 witnesses, every status (exhaustive)",
            reach: &["live", "archived", "unknown"],
        },
        Contract {
            name: "view",
            f: view,
            fns: &[
                "MemState::contract_state", "MemState::is_valid_witness", "MemContract::global",
                "MemContract::rights", "MemContract::fungible", "MemContract::data",
                "MemContract::attach", "MemContract::rights_all", "MemContract::fungible_all",
                "MemContract::data_all", "MemContract::attach_all", "MemContract::witness_ord",
                "MemContract::evolve_state",
            ],
            kani: Kani::No,
            native: "histories of genesis, up to 2 transitions and an extension under 2 witnesses",
            reach: &["archived and tentative witnesses"],
        },
        Contract {
            name: "update",
            f: update,
            fns: &["MemState::update_witnesses"],
            kani: Kani::No,
            native: "two contracts, two updates of 2 witnesses, heights up to 4",
            reach: &["restored", "archived", "not resolved", "deep enough to be skipped"],
        },
    ],
    findings: &[Contract {
        name: "replaced",
        f: replaced,
        fns: &["MemContractState::add_assignments"],
        kani: Kani::No,
        native: "one transition under two witnesses",
        reach: &["right"],
    }],
};
