//! Histories of real operations for the state contracts, with a reference model
//! of the state they define.

use std::collections::{BTreeMap, BTreeSet};
use std::num::NonZeroU32;

use amplify::num::u24;
use nonasync::persistence::{CloneNoPersistence, Persistence, Persisting};
use rgbcore::validation::{ResolveWitness, WitnessResolverError};
use rgbcore::vm::{ContractStateAccess, OrdOpRef, WitnessOrd, WitnessPos};
use rgbcore::{
    ContractId, Extension, Genesis, GlobalStateSchema, GlobalStateType, OpId, Operation, Opout,
    OutputSeal, Schema, Transition, XChain, XOutputSeal, XWitnessId,
};
use rgbstd::persistence::{
    ContractStateRead, MemState, StateProvider, StateReadProvider, StateWriteProvider,
    StoreTransaction, UpdateRes,
};
use strict_encoding::StrictDumb;

use crate::fx;
use crate::src::Src;

pub const GTY: u16 = 20;
pub const GTY2: u16 = 21;

pub fn wid(n: u32) -> XWitnessId { XChain::Bitcoin(fx::txid(n + 1)) }

/// Status of a witness: 0 archived, 1 tentative, otherwise mined (`time - 1` orders).
pub fn ord(status: u32) -> WitnessOrd {
    match status {
        0 => WitnessOrd::Archived,
        1 => WitnessOrd::Tentative,
        t => mined(t - 1, t - 1),
    }
}
pub fn mined(height: u32, time: u32) -> WitnessOrd {
    WitnessOrd::Mined(
        WitnessPos::bitcoin(NonZeroU32::new(height).unwrap(), 1_500_000_000 + time as i64).unwrap(),
    )
}

#[derive(Clone, Debug)]
pub struct Item {
    /// view kind as in [`crate::toy::view`]
    pub kind: u32,
    /// seal on an output of the witness transaction itself
    pub on_witness: bool,
    pub seal: u32,
    pub state: u32,
}

#[derive(Clone, Debug)]
pub struct Op {
    /// 0 genesis, 1 transition, 2 extension
    pub kind: u32,
    pub nonce: u64,
    /// number of the witness (none for genesis)
    pub witness: u32,
    pub lists: BTreeMap<u16, (u32, Vec<Item>)>,
    pub globals: Vec<(u16, Vec<Vec<u8>>)>,
    pub ins: Vec<Opout>,
}

pub enum Real {
    G(Genesis),
    T(Transition),
    E(Extension),
}

impl Real {
    pub fn id(&self) -> OpId {
        match self {
            Real::G(o) => o.id(),
            Real::T(o) => o.id(),
            Real::E(o) => o.id(),
        }
    }
    pub fn op_ref(&self, w: XWitnessId, o: WitnessOrd) -> OrdOpRef<'_> {
        match self {
            Real::G(g) => OrdOpRef::Genesis(g),
            Real::T(t) => OrdOpRef::Transition(t, w, o),
            Real::E(e) => OrdOpRef::Extension(e, w, o),
        }
    }
}

impl Op {
    pub fn real(&self, contract: ContractId) -> Real {
        let gen = || {
            fx::assignments(self.lists.iter().map(|(ty, (class, v))| {
                let v: Vec<_> = v
                    .iter()
                    .map(|i| (i.kind, XChain::Bitcoin(fx::genesis_seal(i.seal % 2, i.seal)), i.state))
                    .collect();
                (fx::aty(*ty as u32), fx::typed(*class, &v))
            }))
        };
        let globals = fx::globals(&self.globals);
        match self.kind {
            0 => {
                let mut g = fx::genesis(self.nonce as u32, gen());
                g.globals = globals;
                Real::G(g)
            }
            1 => {
                let a = fx::assignments(self.lists.iter().map(|(ty, (class, v))| {
                    let v: Vec<_> = v
                        .iter()
                        .map(|i| {
                            let s = if i.on_witness {
                                fx::witness_seal(i.seal % 2, i.seal)
                            } else {
                                fx::graph_seal(i.seal % 2, i.seal)
                            };
                            (i.kind, XChain::Bitcoin(s), i.state)
                        })
                        .collect();
                    (fx::aty(*ty as u32), fx::typed(*class, &v))
                }));
                let mut t = fx::transition(contract, self.nonce, 10 + (self.nonce % 2) as u16, &self.ins, a);
                t.globals = globals;
                Real::T(t)
            }
            _ => {
                let mut e = fx::extension(contract, self.nonce, gen());
                e.globals = globals;
                Real::E(e)
            }
        }
    }

    pub fn out_seal(&self, i: &Item) -> XOutputSeal {
        if i.on_witness && self.kind == 1 {
            XChain::Bitcoin(OutputSeal::with(fx::method(i.seal % 2), fx::txid(self.witness + 1), i.seal))
        } else {
            fx::output_seal(i.seal % 2, i.seal)
        }
    }

    /// `class -> (output, seal, state, witness)` of the revealed assignments.
    pub fn revealed(&self, id: OpId) -> Vec<(u32, Row)> {
        let mut rows = vec![];
        for (ty, (class, v)) in &self.lists {
            for (no, i) in v.iter().enumerate() {
                if crate::toy::shows_seal(i.kind) && crate::toy::shows_state(i.kind) {
                    let state = match class {
                        0 => "void".to_string(),
                        1 => fx::dbg(&fx::value(i.state)),
                        2 => fx::dbg(&fx::data(i.state)),
                        _ => fx::dbg(&fx::attach(i.state)),
                    };
                    let w = (self.kind != 0).then(|| wid(self.witness));
                    rows.push((
                        *class,
                        (Opout::new(id, fx::aty(*ty as u32), no as u16), self.out_seal(i), state, w),
                    ));
                }
            }
        }
        rows
    }

    /// Consensus position of the operation under the given witness status.
    pub fn op_key(&self, id: OpId, status: &[u32]) -> (u32, Option<WitnessOrd>, u16, u64, OpId) {
        match self.kind {
            0 => (0, None, 0, 0, OpId::strict_dumb()),
            1 => (2, Some(ord(status[self.witness as usize])), 10 + (self.nonce % 2) as u16, self.nonce, id),
            _ => (1, Some(ord(status[self.witness as usize])), 3, self.nonce, id),
        }
    }
}

pub type Row = (Opout, XOutputSeal, String, Option<XWitnessId>);

/// State which a contract view reports: rows per class, and per global type the
/// values, newest first.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct View {
    pub rows: [BTreeSet<Row>; 4],
    pub globals: BTreeMap<u16, Vec<Vec<u8>>>,
}

pub fn schema(limit: u32, limit2: u32) -> Schema {
    let mut s = Schema::strict_dumb();
    for (ty, l) in [(GTY, limit), (GTY2, limit2)] {
        let mut g = GlobalStateSchema::once(strict_types::SemId::strict_dumb());
        g.max_items = u24::with(l);
        s.global_types.insert(GlobalStateType::with(ty), g).unwrap();
    }
    s
}

/// Expected view of a history.
pub fn expected(ops: &[(Op, OpId)], status: &[u32], limits: (u32, u32), all: bool) -> View {
    let mut view = View::default();
    let mut glob: BTreeMap<u16, Vec<(_, Vec<u8>)>> = bmap();
    for (op, id) in ops {
        if !all && op.kind != 0 && status[op.witness as usize] == 0 {
            continue;
        }
        for (class, row) in op.revealed(*id) {
            view.rows[class as usize].insert(row);
        }
        for (ty, vals) in &op.globals {
            for (n, v) in vals.iter().enumerate() {
                glob.entry(*ty).or_default().push(((op.op_key(*id, status), n), v.clone()));
            }
        }
    }
    for (ty, limit) in [(GTY, limits.0), (GTY2, limits.1)] {
        let mut v = glob.remove(&ty).unwrap_or_default();
        v.sort();
        v.dedup();
        v.reverse();
        v.truncate(limit as usize);
        view.globals.insert(ty, v.into_iter().map(|(_, d)| d).collect());
    }
    view
}
fn bmap<K: Ord, V>() -> BTreeMap<K, V> { BTreeMap::new() }

/// What the real view reports.
pub fn reported<C: ContractStateRead>(c: &C) -> View {
    let mut view = View::default();
    for a in c.rights_all() {
        assert!(view.rows[0].insert((a.opout, a.seal, "void".to_string(), a.witness)), "rights listed once");
    }
    for a in c.fungible_all() {
        assert!(view.rows[1].insert((a.opout, a.seal, fx::dbg(&a.state), a.witness)), "fungible listed once");
    }
    for a in c.data_all() {
        assert!(view.rows[2].insert((a.opout, a.seal, fx::dbg(&a.state), a.witness)), "data listed once");
    }
    for a in c.attach_all() {
        assert!(view.rows[3].insert((a.opout, a.seal, fx::dbg(&a.state), a.witness)), "attachment listed once");
    }
    for ty in [GTY, GTY2] {
        view.globals.insert(ty, global_list(c, ty));
    }
    view
}

/// Global state, newest first. The wrapper of rgb-core cannot iterate over more
/// than one item (it refuses the descending order), so the items are read by
/// position, and the first one by iteration.
pub fn global_list<C: ContractStateAccess>(c: &C, ty: u16) -> Vec<Vec<u8>> {
    use amplify::Wrapper;
    use std::borrow::Borrow;
    let ty = GlobalStateType::with(ty);
    let mut it = c.global(ty).unwrap();
    let size = it.size().to_u32();
    assert_eq!(it.size().to_u32(), size, "global size is stable");
    let mut v: Vec<Vec<u8>> = vec![];
    if let Some(d) = it.next() {
        let d: &rgbcore::DataState = d.borrow();
        v.push(d.as_inner().to_vec());
    }
    assert_eq!(v.len() as u32, size.min(1), "global size agrees with the items");
    assert_eq!(it.size().to_u32(), size, "global size does not depend on the position");
    for n in 1..size {
        let mut it = c.global(ty).unwrap();
        let d = it.nth(u24::with(n)).expect("every item is there");
        let d: &rgbcore::DataState = d.borrow();
        v.push(d.as_inner().to_vec());
    }
    let mut it = c.global(ty).unwrap();
    assert!(it.nth(u24::with(size.max(1))).is_none(), "no item beyond the size");
    v
}

/// Whether the lookups by output agree with the listing.
pub fn lookups_agree<C: ContractStateRead>(c: &C, v: &View, outs: &BTreeSet<rgbcore::XOutpoint>, tys: &[u32]) -> bool {
    use std::borrow::Borrow;
    let mut ok = true;
    for o in outs {
        for ty in tys {
            let ty = fx::aty(*ty);
            let want = |class: usize| -> Vec<String> {
                let mut w: Vec<_> = v.rows[class]
                    .iter()
                    .filter(|r| XOutputSeal::to_outpoint(&r.1) == *o && r.0.ty == ty)
                    .map(|r| r.2.clone())
                    .collect();
                w.sort();
                w
            };
            ok &= c.rights(*o, ty) as usize == want(0).len();
            let mut f: Vec<_> = c.fungible(*o, ty).map(|x| u64::from(x)).collect();
            f.sort();
            let mut wf: Vec<u64> = v.rows[1]
                .iter()
                .filter(|r| XOutputSeal::to_outpoint(&r.1) == *o && r.0.ty == ty)
                .map(|r| state_no(1, &r.2) as u64 * 1000 + 1)
                .collect();
            wf.sort();
            ok &= f == wf;
            let mut d: Vec<String> = c.data(*o, ty).map(|x| format!("{:?}", Borrow::<rgbcore::DataState>::borrow(&x))).collect();
            let mut wd: Vec<String> = v.rows[2]
                .iter()
                .filter(|r| XOutputSeal::to_outpoint(&r.1) == *o && r.0.ty == ty)
                .map(|r| format!("{:?}", fx::data(state_no(2, &r.2)).value))
                .collect();
            d.sort();
            wd.sort();
            ok &= d == wd;
            let mut a: Vec<String> = c.attach(*o, ty).map(|x| format!("{:?}", Borrow::<rgbcore::AttachState>::borrow(&x))).collect();
            let mut wa: Vec<String> = v.rows[3]
                .iter()
                .filter(|r| XOutputSeal::to_outpoint(&r.1) == *o && r.0.ty == ty)
                .map(|r| format!("{:?}", fx::attach(state_no(3, &r.2)).file))
                .collect();
            a.sort();
            wa.sort();
            ok &= a == wa;
        }
    }
    ok
}
fn state_no(class: u32, text: &str) -> u32 {
    (0..16)
        .find(|n| {
            text == match class {
                1 => fx::dbg(&fx::value(*n)),
                2 => fx::dbg(&fx::data(*n)),
                _ => fx::dbg(&fx::attach(*n)),
            }
        })
        .expect("state of the fixture")
}

/// Draws an operation with up to two lists and some global state.
pub fn draw_op<S: Src>(s: &mut S, kind: u32, nonce: u64, witnesses: u32) -> Op {
    let mut lists = bmap();
    for ty in 1..=2u16 {
        if s.bool() {
            let class = s.below(4);
            let n = 1 + s.below(2);
            let v = (0..n)
                .map(|k| Item {
                    kind: [0, 0, 1, 2, 3][s.below(5) as usize],
                    on_witness: kind == 1 && s.bool(),
                    seal: s.below(3) + 4 * (k + ty as u32 - 1),
                    state: s.below(3),
                })
                .collect();
            lists.insert(ty, (class, v));
        }
    }
    let mut globals = vec![];
    for ty in [GTY, GTY2] {
        let n = s.below(3);
        if n > 0 {
            globals.push((ty, (0..n).map(|k| vec![ty as u8, kind as u8, nonce as u8, k as u8]).collect()));
        }
    }
    Op { kind, nonce, witness: if kind == 0 { 0 } else { s.below(witnesses) }, lists, globals, ins: vec![] }
}

pub struct Resolver(pub BTreeMap<XWitnessId, WitnessOrd>);
impl ResolveWitness for Resolver {
    fn resolve_pub_witness(&self, w: XWitnessId) -> Result<rgbcore::vm::XWitnessTx, WitnessResolverError> {
        Err(WitnessResolverError::Unknown(w))
    }
    fn resolve_pub_witness_ord(&self, w: XWitnessId) -> Result<WitnessOrd, WitnessResolverError> {
        self.0.get(&w).copied().ok_or(WitnessResolverError::Unknown(w))
    }
}
pub fn resolver(status: &[u32]) -> Resolver {
    Resolver(status.iter().enumerate().map(|(n, t)| (wid(n as u32), ord(*t))).collect())
}

/// The in-memory provider as a provider with a default, for `State`.
pub struct Prov(pub MemState, Option<Persistence<Prov>>);
impl std::fmt::Debug for Prov {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) }
}
impl Default for Prov {
    fn default() -> Self { Prov(MemState::in_memory(), None) }
}
impl CloneNoPersistence for Prov {
    fn clone_no_persistence(&self) -> Self { Prov(self.0.clone_no_persistence(), None) }
}
impl Persisting for Prov {
    fn persistence(&self) -> Option<&Persistence<Self>> { self.1.as_ref() }
    fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { self.1.as_mut() }
    fn as_mut_persistence(&mut self) -> &mut Option<Persistence<Self>> { &mut self.1 }
}
impl StoreTransaction for Prov {
    type TransactionErr = <MemState as StoreTransaction>::TransactionErr;
    fn begin_transaction(&mut self) -> Result<(), Self::TransactionErr> { self.0.begin_transaction() }
    fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { self.0.commit_transaction() }
    fn rollback_transaction(&mut self) { self.0.rollback_transaction() }
}
impl StateReadProvider for Prov {
    type ContractRead<'a> = <MemState as StateReadProvider>::ContractRead<'a>;
    type Error = <MemState as StateReadProvider>::Error;
    fn contract_state(&self, id: ContractId) -> Result<Self::ContractRead<'_>, Self::Error> {
        self.0.contract_state(id)
    }
    fn is_valid_witness(&self, w: XWitnessId) -> Result<bool, Self::Error> { self.0.is_valid_witness(w) }
}
impl StateWriteProvider for Prov {
    type ContractWrite<'a> = <MemState as StateWriteProvider>::ContractWrite<'a>;
    type Error = <MemState as StateWriteProvider>::Error;
    fn register_contract(&mut self, s: &Schema, g: &Genesis) -> Result<Self::ContractWrite<'_>, Self::Error> {
        self.0.register_contract(s, g)
    }
    fn update_contract(&mut self, id: ContractId) -> Result<Option<Self::ContractWrite<'_>>, Self::Error> {
        self.0.update_contract(id)
    }
    fn update_witnesses(&mut self, r: impl ResolveWitness, after: u32) -> Result<UpdateRes, Self::Error> {
        self.0.update_witnesses(r, after)
    }
}
impl StateProvider for Prov {}
