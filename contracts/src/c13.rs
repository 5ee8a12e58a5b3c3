//! C13: implementations map names to schema types, checks accept the consistent ones.

use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use rgbcore::{
    AssignmentType, ExtensionSchema, ExtensionType, FungibleType, GlobalStateSchema, GlobalStateType, MetaType, Occurrences,
    OwnedStateSchema, Schema, SchemaId, TransitionSchema, TransitionType, ValencyType,
};
use rgbstd::interface::{
    AssignIface, ContractIface, ExtensionIface, GenesisIface, GlobalIface, Iface, IfaceClass, IfaceId, IfaceImpl, IfaceWrapper, Modifier, NamedField, NamedVariant,
    SchemaTypeIndex,
    OwnedIface, Req, TransitionIface, ValencyIface, VerNo,
};
use rgbstd::persistence::{MemStash, SchemaIfaces, StashReadProvider, StashWriteProvider};
use strict_encoding::{FieldName, TypeName, VariantName};
use strict_types::SemId;

use crate::registry::{Contract, Kani, Property};
use crate::src::Src;
use crate::world::{self, name};
use crate::{fx, post, reach};

const NAMES: [&str; 4] = ["alpha", "beta", "gamma", "delta"];
const NOW: i64 = 1_700_000_000;
/// Year 2200.
const LATER: i64 = 7_258_118_400;

pub fn sem(n: u32) -> SemId { SemId::from(fx::b32(900 + n)) }
pub fn variant(n: usize) -> VariantName { VariantName::try_from(NAMES[n].to_owned()).unwrap() }
pub fn nm(n: usize) -> FieldName { name(NAMES[n]) }

/// Names bound to types, both numbered, for the six kinds and for errors.
pub type Binds = [BTreeSet<(usize, u16)>; 7];

/// Distinct numbers for every kind, such that mixing the kinds up is seen.
fn num(kind: usize, t: u16) -> u16 { 10 * (kind as u16 + 1) + t }

fn fields<T: SchemaTypeIndex + Ord>(b: &BTreeSet<(usize, u16)>, f: impl Fn(u16) -> T) -> Confined<BTreeSet<NamedField<T>>, 0, 255> {
    // Collecting takes fields with a common name or type for equal ones.
    let mut set = BTreeSet::new();
    for (n, t) in b {
        set.insert(NamedField::with(f(*t), nm(*n)));
    }
    Confined::from_checked(set)
}

pub fn iimpl(b: &Binds) -> IfaceImpl {
    let mut errors = BTreeSet::new();
    for (n, t) in &b[6] {
        errors.insert(NamedVariant::with(num(6, *t) as u8, variant(*n)));
    }
    IfaceImpl {
        version: VerNo::V1,
        schema_id: SchemaId::from(fx::b32(910)),
        iface_id: IfaceId::from(fx::b32(911)),
        timestamp: NOW,
        metadata: fields(&b[0], |t| MetaType::with(num(0, t))),
        global_state: fields(&b[1], |t| GlobalStateType::with(num(1, t))),
        assignments: fields(&b[2], |t| AssignmentType::with(num(2, t))),
        valencies: fields(&b[3], |t| ValencyType::with(num(3, t))),
        transitions: fields(&b[4], |t| TransitionType::with(num(4, t))),
        extensions: fields(&b[5], |t| ExtensionType::with(num(5, t))),
        errors: Confined::from_checked(errors),
        developer: Default::default(),
    }
}

fn lookups<S: Src>(s: &mut S) {
    // Of the names, the first ones are bound, each to a type of its own.
    let mut b: Binds = Default::default();
    for kind in &mut b {
        let mut free = vec![0u16, 1, 2, 3];
        for n in 0..s.below(4) as usize {
            let t = free.remove(s.below(free.len() as u32) as usize);
            kind.insert((n, t));
        }
    }
    reach!(s, b.iter().all(|k| k.len() == 3), "everything bound");
    reach!(s, b.iter().all(|k| k.is_empty()), "nothing bound");
    let i = iimpl(&b);
    for n in 0..4usize {
        let want = |k: usize| b[k].iter().find(|x| x.0 == n).map(|x| num(k, x.1));
        let f = nm(n);
        post!(i.meta_type(&f) == want(0).map(MetaType::with), "lookup: metadata by the name");
        post!(i.global_type(&f) == want(1).map(GlobalStateType::with), "lookup: global state by the name");
        post!(i.assignments_type(&f) == want(2).map(AssignmentType::with), "lookup: owned state by the name");
        post!(i.valency_type(&f) == want(3).map(ValencyType::with), "lookup: valency by the name");
        post!(i.transition_type(&f) == want(4).map(TransitionType::with), "lookup: transition by the name");
        post!(i.extension_type(&f) == want(5).map(ExtensionType::with), "lookup: extension by the name");
    }
    // Types of all kinds are asked from each kind.
    for k in 0..7usize {
        for t in 0..4u16 {
            let t = num(k, t);
            let want = |j: usize| (k == j).then(|| b[j].iter().find(|x| num(j, x.1) == t).map(|x| nm(x.0))).flatten();
            post!(i.meta_name(MetaType::with(t)).cloned() == want(0), "lookup: metadata by the type");
            post!(i.global_name(GlobalStateType::with(t)).cloned() == want(1), "lookup: global state by the type");
            post!(i.assignment_name(AssignmentType::with(t)).cloned() == want(2), "lookup: owned state by the type");
            post!(i.valency_name(ValencyType::with(t)).cloned() == want(3), "lookup: valency by the type");
            post!(i.transition_name(TransitionType::with(t)).cloned() == want(4), "lookup: transition by the type");
            post!(i.extension_name(ExtensionType::with(t)).cloned() == want(5), "lookup: extension by the type");
            let want = (k == 6).then(|| b[6].iter().find(|x| num(6, x.1) == t).map(|x| variant(x.0))).flatten();
            post!(i.error_name(t as u8).cloned() == want, "lookup: error by the number");
        }
    }
}

fn ts<S: Src>(s: &mut S, quiet: bool) -> i64 {
    if quiet {
        return NOW;
    }
    [NOW, LATER, i64::MAX, i64::MIN, 0, -1][s.below(6) as usize]
}
fn good(ts: i64) -> bool { [NOW, 0, -1].contains(&ts) }

pub fn schema(types: &[BTreeSet<u16>; 6]) -> Schema {
    fn map<K: Ord, V>(kind: usize, t: &BTreeSet<u16>, k: impl Fn(u16) -> K, v: impl Fn() -> V) -> BTreeMap<K, V> {
        t.iter().map(|t| (k(num(kind, *t)), v())).collect()
    }
    let mut s = world::kinds(0).schema.clone();
    s.meta_types = Confined::from_checked(map(0, &types[0], MetaType::with, || sem(0)));
    s.global_types = Confined::from_checked(map(1, &types[1], GlobalStateType::with, || GlobalStateSchema::once(sem(0))));
    s.owned_types = Confined::from_checked(map(2, &types[2], AssignmentType::with, || {
        OwnedStateSchema::Fungible(FungibleType::Unsigned64Bit)
    }));
    s.valency_types = Confined::from_checked(types[3].iter().map(|t| ValencyType::with(num(3, *t))).collect());
    s.transitions = Confined::from_checked(map(4, &types[4], TransitionType::with, TransitionSchema::default));
    s.extensions = Confined::from_checked(map(5, &types[5], ExtensionType::with, ExtensionSchema::default));
    s
}

fn genesis() -> GenesisIface {
    GenesisIface {
        modifier: Modifier::Final,
        metadata: none(),
        globals: none(),
        assignments: none(),
        valencies: none(),
        errors: none(),
    }
}
fn none<T: Default>() -> T { T::default() }
pub fn transition() -> TransitionIface {
    TransitionIface {
        modifier: Modifier::Final,
        optional: false,
        metadata: none(),
        globals: none(),
        inputs: none(),
        assignments: none(),
        valencies: none(),
        errors: none(),
        default_assignment: None,
    }
}
pub fn extension() -> ExtensionIface {
    ExtensionIface {
        modifier: Modifier::Final,
        optional: false,
        metadata: none(),
        globals: none(),
        assignments: none(),
        redeems: none(),
        valencies: none(),
        errors: none(),
        default_assignment: None,
    }
}
pub fn empty(title: &str) -> Iface {
    Iface {
        version: VerNo::V1,
        name: TypeName::try_from(title.to_owned()).unwrap(),
        inherits: none(),
        timestamp: NOW,
        metadata: none(),
        global_state: none(),
        assignments: none(),
        valencies: none(),
        genesis: genesis(),
        transitions: none(),
        extensions: none(),
        default_operation: None,
        errors: none(),
        developer: Default::default(),
    }
}
fn keyed<V: Clone>(names: &BTreeSet<usize>, v: V) -> Confined<BTreeMap<FieldName, V>, 0, 255> {
    Confined::from_checked(names.iter().map(|n| (nm(*n), v.clone())).collect())
}

fn impl_check<S: Src>(s: &mut S) {
    // A consistent implementation of up to two names of each kind, then changes.
    let mut names: [BTreeSet<usize>; 7] = Default::default();
    let mut types: [BTreeSet<u16>; 6] = Default::default();
    let mut b: Binds = Default::default();
    for k in 0..7usize {
        for n in 0..s.below(3) as usize {
            names[k].insert(n);
            b[k].insert((n, n as u16));
            if k < 6 {
                types[k].insert(n as u16);
            }
        }
    }
    let changes = s.below(4);
    for _ in 0..changes {
        let k = s.below(7) as usize;
        match s.below(5) {
            0 => {
                let n = s.below(3) as usize;
                b[k].retain(|x| x.0 != n);
            }
            1 => {
                b[k].insert((s.below(3) as usize, s.below(3) as u16));
            }
            2 if k < 6 => {
                types[k].remove(&(s.below(3) as u16));
            }
            3 if k < 6 => {
                types[k].insert(s.below(3) as u16);
            }
            _ => {
                let n = s.below(3) as usize;
                if !names[k].insert(n) {
                    names[k].remove(&n);
                }
            }
        }
    }
    let mut iface = empty("Check");
    iface.metadata = keyed(&names[0], sem(0));
    // Optional and required names alike are to be bound.
    let req = if s.bool() { Req::Required } else { Req::NoneOrMore };
    iface.global_state = keyed(&names[1], GlobalIface::any(req));
    iface.assignments = keyed(&names[2], AssignIface::public(OwnedIface::Amount, req));
    iface.valencies = keyed(&names[3], ValencyIface { required: req == Req::Required });
    iface.transitions = keyed(&names[4], TransitionIface { optional: req != Req::Required, ..transition() });
    iface.extensions = keyed(&names[5], ExtensionIface { optional: req != Req::Required, ..extension() });
    iface.errors = Confined::from_checked(names[6].iter().map(|n| (variant(*n), none())).collect());
    let sch = schema(&types);
    let mut i = iimpl(&b);
    i.timestamp = ts(s, changes > 0);
    let bound = (0..6).all(|k| names[k].iter().all(|n| b[k].iter().any(|x| x.0 == *n)));
    let known = (0..6).all(|k| b[k].iter().all(|x| types[k].contains(&x.1)));
    let once = (0..6).all(|k| (0..3).all(|n| b[k].iter().filter(|x| x.0 == n).count() < 2));
    let errs = b[6].iter().all(|x| names[6].contains(&x.0));
    reach!(s, !bound && known && once && errs, "a name not bound");
    reach!(s, bound && !known && once && errs, "a type not in the schema");
    reach!(s, bound && known && !once && errs, "a name bound twice");
    reach!(s, bound && known && once && !errs, "an unknown error");
    reach!(s, bound && known && once && errs && !good(i.timestamp), "a wrong time");
    reach!(s, bound && known && once && errs && good(i.timestamp) && b.iter().all(|k| !k.is_empty()), "accepted");
    let got = i.check(&iface, &sch);
    post!(
        got.is_ok() == (bound && known && once && errs && good(i.timestamp)),
        "check: accepted exactly when every name is bound once to a known type"
    );
    if let Err(e) = got {
        post!(!e.is_empty(), "check: reasons of the refusal given");
    }
}

const OCC: [Occurrences; 5] =
    [Occurrences::Once, Occurrences::NoneOrMore, Occurrences::Exactly(2), Occurrences::OnceOrMore, Occurrences::Range(2..=3)];

fn pick<S: Src>(s: &mut S, quiet: bool) -> BTreeSet<usize> {
    // References to the two known names, rarely to the third one.
    match s.below(if quiet { 3 } else { 6 }) {
        0 => BTreeSet::new(),
        1 => BTreeSet::from([0]),
        2 => BTreeSet::from([0, 1]),
        3 => BTreeSet::from([1]),
        4 => BTreeSet::from([2]),
        _ => BTreeSet::from([1, 2]),
    }
}
fn set(names: &BTreeSet<usize>) -> Confined<BTreeSet<FieldName>, 0, 255> {
    Confined::from_checked(names.iter().map(|n| nm(*n)).collect())
}
fn vset(names: &BTreeSet<usize>) -> Confined<BTreeSet<VariantName>, 0, 255> {
    Confined::from_checked(names.iter().map(|n| variant(*n)).collect())
}
fn args(names: &BTreeSet<usize>, occ: &Occurrences) -> Confined<BTreeMap<FieldName, Occurrences>, 0, 255> {
    Confined::from_checked(names.iter().map(|n| (nm(*n), occ.clone())).collect())
}

/// What an operation references; `inputs` are redeemed valencies for an extension.
#[derive(Default)]
struct Op {
    meta: BTreeSet<usize>,
    globals: BTreeSet<usize>,
    assigns: BTreeSet<usize>,
    inputs: BTreeSet<usize>,
    valencies: BTreeSet<usize>,
    errors: BTreeSet<usize>,
    default: Option<usize>,
    occ: [usize; 3],
}

fn op<S: Src>(s: &mut S, odd: Option<u32>) -> Op {
    let mut o = Op { globals: BTreeSet::from([0]), assigns: BTreeSet::from([0, 1]), valencies: BTreeSet::from([0]), ..Default::default() };
    if s.bool() {
        o.meta = pick(s, true);
        o.inputs = pick(s, true);
        o.errors = pick(s, true);
        if s.bool() {
            o.default = Some(s.below(2) as usize);
        }
    }
    match odd {
        None => {}
        Some(0) => o.meta = pick(s, false),
        Some(1) => {
            o.globals = pick(s, false);
            o.occ[0] = s.below(5) as usize;
        }
        Some(2) => {
            o.assigns = pick(s, false);
            o.occ[1] = s.below(5) as usize;
        }
        Some(3) => {
            o.inputs = pick(s, false);
            o.occ[2] = s.below(5) as usize;
        }
        Some(4) => o.valencies = pick(s, false),
        Some(5) => o.errors = pick(s, false),
        Some(_) => o.default = Some(s.below(3) as usize),
    }
    o
}

fn iface_check<S: Src>(s: &mut S) {
    // Two names of each kind are declared, or only the first one.
    let both = s.below(4) != 0;
    let known = if both { BTreeSet::from([0, 1]) } else { BTreeSet::from([0]) };
    let many = [s.bool(), s.bool()];
    let required = [s.below(3) as usize, s.below(3) as usize, s.below(3) as usize];
    let mut iface = empty("Check");
    iface.metadata = keyed(&known, sem(0));
    let decl = |n: usize| Some(n).filter(|n| known.contains(n)).is_some();
    iface.global_state = Confined::from_checked(
        known.iter().map(|n| (nm(*n), GlobalIface { sem_id: None, required: required[0] == n + 1, multiple: many[*n] })).collect(),
    );
    iface.assignments = Confined::from_checked(
        known
            .iter()
            .map(|n| {
                let a = AssignIface { owned_state: OwnedIface::Rights, public: true, required: required[1] == n + 1, multiple: many[*n] };
                (nm(*n), a)
            })
            .collect(),
    );
    iface.valencies =
        Confined::from_checked(known.iter().map(|n| (nm(*n), ValencyIface { required: required[2] == n + 1 })).collect());
    iface.errors = Confined::from_checked(known.iter().map(|n| (variant(*n), none())).collect());
    // At most one of the three operations has an odd reference.
    let odd = s.below(4);
    let what = s.below(7);
    let mut ops = vec![];
    for i in 0..3 {
        ops.push(op(s, (odd == i + 1).then_some(what)));
    }
    let g = &ops[0];
    iface.genesis.metadata = set(&g.meta);
    iface.genesis.globals = args(&g.globals, &OCC[g.occ[0]]);
    iface.genesis.assignments = args(&g.assigns, &OCC[g.occ[1]]);
    iface.genesis.valencies = set(&g.valencies);
    iface.genesis.errors = vset(&g.errors);
    let (has_t, has_e) = (s.below(4) != 0, s.below(4) != 0);
    let (tn, en) = (s.below(3) as usize, s.below(3) as usize);
    let t = &ops[1];
    if has_t {
        let t = TransitionIface {
            metadata: set(&t.meta),
            globals: args(&t.globals, &OCC[t.occ[0]]),
            inputs: args(&t.inputs, &OCC[t.occ[2]]),
            assignments: args(&t.assigns, &OCC[t.occ[1]]),
            valencies: set(&t.valencies),
            errors: vset(&t.errors),
            default_assignment: t.default.map(nm),
            ..transition()
        };
        iface.transitions.insert(nm(tn), t).unwrap();
    }
    let e = &ops[2];
    if has_e {
        let e = ExtensionIface {
            metadata: set(&e.meta),
            globals: args(&e.globals, &OCC[e.occ[0]]),
            assignments: args(&e.assigns, &OCC[e.occ[1]]),
            redeems: set(&e.inputs),
            valencies: set(&e.valencies),
            errors: vset(&e.errors),
            default_assignment: e.default.map(nm),
            ..extension()
        };
        iface.extensions.insert(nm(en), e).unwrap();
    }
    let default = s.below(4) as usize;
    iface.default_operation = (default < 3).then(|| nm(default));
    iface.timestamp = ts(s, odd > 0);

    let all = |x: &BTreeSet<usize>| x.iter().all(|n| decl(*n));
    let several = |o: usize| [2, 4].contains(&o);
    let single = |x: &BTreeSet<usize>, o: usize| !several(o) || x.iter().all(|n| many[*n]);
    let common = |o: &Op| {
        all(&o.meta) && all(&o.globals) && all(&o.assigns) && all(&o.valencies) && all(&o.errors)
            && single(&o.globals, o.occ[0]) && single(&o.assigns, o.occ[1])
    };
    let names_ok = common(g)
        && (!has_t
            || common(t) && all(&t.inputs) && single(&t.inputs, t.occ[2]) && t.default.map_or(true, |d| t.assigns.contains(&d)))
        && (!has_e || common(e) && all(&e.inputs) && e.default.map_or(true, |d| e.assigns.contains(&d)));
    let ops_ok = !(has_t && has_e && tn == en)
        && (default == 3 || has_t && default == tn || has_e && default == en);
    let req_ok = [&g.globals, &g.assigns, &g.valencies]
        .iter()
        .zip(required)
        .all(|(have, r)| r == 0 || !decl(r - 1) || have.contains(&(r - 1)));
    let want = names_ok && ops_ok && req_ok && good(iface.timestamp);
    reach!(s, want && has_t && has_e && both, "accepted");
    reach!(s, !names_ok && ops_ok && req_ok, "an unknown reference");
    reach!(s, names_ok && !ops_ok && req_ok, "a wrong operation");
    reach!(s, names_ok && ops_ok && !req_ok, "required state absent");
    reach!(s, names_ok && ops_ok && req_ok && !good(iface.timestamp), "a wrong time");
    let got = iface.check();
    post!(got.is_ok() == want, "interface: accepted exactly when everything referenced is declared");
}

fn found<S: Src>(s: &mut S) {
    // Five interfaces; the schema implements some of them.
    let faces: Vec<Iface> = (0..5).map(|n| empty(&format!("Face{n}"))).collect();
    let ids: Vec<IfaceId> = faces.iter().map(|f| f.iface_id()).collect();
    let mut parents = vec![];
    for _ in 0..s.below(4) {
        parents.push(s.below(4) as usize);
    }
    let mut child = empty("Child");
    child.inherits = Confined::from_checked(parents.iter().map(|p| ids[*p]).collect());
    let child_id = child.iface_id();
    let mut sch = SchemaIfaces::new(world::kinds(0).schema.clone());
    let own = s.below(4) == 0;
    let mut present = vec![];
    for n in 0..5usize {
        if s.bool() {
            present.push(n);
            let mut i = iimpl(&Default::default());
            i.iface_id = ids[n];
            sch.iimpls.insert(faces[n].name.clone(), i).unwrap();
        }
    }
    if own {
        let mut i = iimpl(&Default::default());
        i.iface_id = child_id;
        sch.iimpls.insert(child.name.clone(), i).unwrap();
    }
    for n in 0..5usize {
        post!(sch.contains(ids[n]) == present.contains(&n), "found: exactly the implemented interfaces known");
        post!(sch.get(ids[n]).map(|i| i.iface_id) == present.contains(&n).then_some(ids[n]), "found: the implementation of the interface");
    }
    post!(sch.contains(child_id) == own, "found: own implementation known");
    let want = if own { Some(child_id) } else { parents.iter().rev().find(|p| present.contains(p)).map(|p| ids[*p]) };
    reach!(s, own, "own");
    reach!(s, !own && want.is_some(), "a parent");
    reach!(s, want.is_none() && !present.is_empty(), "none");
    post!(child.find_abstractable_impl(&sch).map(|i| i.iface_id) == want, "found: own implementation or of the nearest parent");
}

/// A class of two interfaces, one of which inherits a third one.
#[derive(Clone, Default)]
struct Class;
/// Information about a contract in the class.
struct Shown(rgbcore::ContractId, SchemaId);
impl<C: rgbstd::persistence::ContractStateRead> IfaceWrapper<C> for Shown {
    type Info = (rgbcore::ContractId, SchemaId);
    fn with(f: ContractIface<C>) -> Self { Shown(f.state.contract_id(), f.schema.schema_id()) }
    fn info(&self) -> Self::Info { (self.0, self.1) }
    fn contract_id(&self) -> rgbcore::ContractId { self.0 }
    fn schema_id(&self) -> SchemaId { self.1 }
    fn witness_info(&self, _: rgbcore::XWitnessId) -> Option<rgbstd::WitnessInfo> { None }
}
impl IfaceClass for Class {
    const IFACE_NAME: &'static str = "Class";
    const IFACE_IDS: &'static [IfaceId] = &[IfaceId::from_array(FACE0), IfaceId::from_array(CHILD)];
    type Wrapper<C: rgbstd::persistence::ContractStateRead> = Shown;
    fn stl(&self) -> strict_types::TypeLib { unreachable!() }
    fn iface(&self) -> Iface { empty("Face0") }
    fn iface_id(&self) -> IfaceId { empty("Face0").iface_id() }
}
const FACE0: [u8; 32] = [
    79, 184, 76, 31, 80, 241, 139, 228, 51, 9, 28, 232, 81, 202, 124, 38, 183, 141, 144, 125, 89, 178, 159, 139, 140, 9,
    69, 50, 94, 5, 229, 248,
];
const CHILD: [u8; 32] = [
    22, 20, 189, 15, 24, 185, 127, 42, 247, 10, 85, 131, 90, 245, 202, 216, 94, 189, 200, 180, 33, 93, 247, 229, 107,
    236, 139, 129, 166, 26, 153, 142,
];

fn class<S: Src>(s: &mut S) {
    let mut faces: Vec<Iface> = (0..3).map(|n| empty(&format!("Face{n}"))).collect();
    let mut child = empty("Child");
    child.inherits = Confined::from_checked([faces[1].iface_id()].into_iter().collect());
    faces.push(child);
    let ids: Vec<IfaceId> = faces.iter().map(|f| f.iface_id()).collect();
    // the identifiers written down are those of the interfaces
    s.assume(Class::IFACE_IDS == [ids[0], ids[3]]);
    let mut stash = MemStash::in_memory();
    for f in &faces {
        stash.replace_iface(f.clone()).unwrap();
    }
    let mut want = vec![];
    for n in 0..2 {
        let sch = world::kinds(n).schema.clone();
        stash.replace_schema(sch.clone()).unwrap();
        let mut have = vec![];
        for (f, id) in ids.iter().enumerate() {
            if s.bool() {
                let mut i = iimpl(&Default::default());
                i.iface_id = *id;
                i.schema_id = sch.schema_id();
                stash.replace_iimpl(i).unwrap();
                have.push(f);
            }
        }
        let g = fx::genesis(n, Default::default());
        stash.replace_genesis(rgbcore::Genesis { schema_id: sch.schema_id(), ..g }).unwrap();
        let sid = sch.schema_id();
        let known = stash.schema(sid).unwrap();
        let got = stash.impl_for::<Class>(known).map(|i| (i.schema_id, i.iface_id)).ok();
        let direct = have.contains(&0) || have.contains(&3);
        if direct {
            post!(
                matches!(got, Some((s, i)) if s == sid && (i == ids[0] || i == ids[3])),
                "class: an implementation of one of the interfaces"
            );
        } else {
            post!(got == have.contains(&1).then_some((sid, ids[1])), "class: else of what they inherit, or none");
        }
        reach!(s, direct, "implemented");
        reach!(s, !direct && got.is_some(), "inherited");
        reach!(s, got.is_none() && !have.is_empty(), "not implemented");
        if got.is_some() {
            want.push(sid);
        }
    }
    want.sort();
    let mut got: Vec<_> = stash.schemata_by::<Class>().unwrap().map(|s| s.schema.schema_id()).collect();
    got.sort();
    post!(got == want, "class: exactly the schemata implementing it");
    let mut got: Vec<_> = stash.geneses_by::<Class>().unwrap().map(|g| g.schema_id).collect();
    got.sort();
    post!(got == want, "class: exactly the contracts of these schemata");
}

fn types<S: Src>(s: &mut S) {
    let mut iface = empty("Types");
    let mut want = vec![];
    for n in 0..3usize {
        let t = n as u32;
        if s.bool() {
            iface.metadata.insert(nm(n), sem(t)).unwrap();
            want.push(sem(t));
        }
        match s.below(6) {
            0 => {}
            1 => drop(iface.global_state.insert(nm(n), GlobalIface::any(Req::Optional)).unwrap()),
            k => {
                let g = match k {
                    2 => GlobalIface::optional(sem(10 + t)),
                    3 => GlobalIface::required(sem(10 + t)),
                    4 => GlobalIface::none_or_many(sem(10 + t)),
                    _ => GlobalIface::one_or_many(sem(10 + t)),
                };
                post!(g.sem_id == Some(sem(10 + t)) && g.required == [3, 5].contains(&k) && g.multiple == (k > 3), "types: declared as named");
                iface.global_state.insert(nm(n), g).unwrap();
                want.push(sem(10 + t));
            }
        }
        let k = s.below(7);
        let o = [OwnedIface::Any, OwnedIface::Rights, OwnedIface::Amount, OwnedIface::AnyData, OwnedIface::AnyAttach, OwnedIface::Data(sem(20 + t))];
        if k < 6 {
            let o = o[k as usize];
            let a = if s.bool() { AssignIface::public(o, Req::Optional) } else { AssignIface::private(o, Req::OneOrMore) };
            post!(a.owned_state == o && a.required != a.public && a.multiple != a.public, "types: owned state as named");
            iface.assignments.insert(nm(n), a).unwrap();
            if k == 5 {
                want.push(sem(20 + t));
            }
        }
    }
    reach!(s, want.len() == 9, "all");
    reach!(s, want.is_empty(), "none");
    let mut got = iface.types().collect::<Vec<_>>();
    got.sort();
    want.sort();
    post!(got == want, "types: exactly the types named by the interface");
}

fn reqs<S: Src>(s: &mut S) {
    let r = [Req::Optional, Req::Required, Req::NoneOrMore, Req::OneOrMore][s.below(4) as usize];
    let o = match s.below(6) {
        0 => OwnedIface::Any,
        1 => OwnedIface::Rights,
        2 => OwnedIface::Amount,
        3 => OwnedIface::AnyData,
        4 => OwnedIface::AnyAttach,
        _ => OwnedIface::Data(SemId::from([s.u8(); 32])),
    };
    let required = matches!(r, Req::Required | Req::OneOrMore);
    let multiple = matches!(r, Req::NoneOrMore | Req::OneOrMore);
    reach!(s, required, "required");
    reach!(s, multiple, "multiple");
    post!(r.is_required() == required, "requirement: required");
    post!(r.is_multiple() == multiple, "requirement: several allowed");
    let g = GlobalIface::any(r);
    post!(g.sem_id.is_none() && g.required == required && g.multiple == multiple, "requirement: global state of any type");
    let a = AssignIface::public(o, r);
    post!(a.public && a.required == required && a.multiple == multiple && a.owned_state == o, "requirement: public owned state");
    let a = AssignIface::private(o, r);
    post!(!a.public && a.required == required && a.multiple == multiple && a.owned_state == o, "requirement: private owned state");
    let id = if let OwnedIface::Data(id) = o { Some(id) } else { None };
    post!(o.sem_id() == id, "requirement: type of structured data only");
}

pub const PROPERTY: Property = Property {
    id: "C13",
    module: "c13",
    contracts: &[
        Contract {
            name: "lookups",
            f: lookups,
            fns: &[
                "IfaceImpl::meta_type", "IfaceImpl::meta_name", "IfaceImpl::global_type", "IfaceImpl::global_name",
                "IfaceImpl::assignments_type", "IfaceImpl::assignment_name", "IfaceImpl::valency_type", "IfaceImpl::valency_name",
                "IfaceImpl::transition_type", "IfaceImpl::transition_name", "IfaceImpl::extension_type", "IfaceImpl::extension_name",
                "IfaceImpl::error_name",
            ],
            kani: Kani::No,
            native: "up to 3 names of each kind bound to distinct ones of 4 types, all names and the types of all kinds looked up",
            reach: &["everything bound", "nothing bound"],
        },
        Contract {
            name: "impl_check",
            f: impl_check,
            fns: &["IfaceImpl::check"],
            kani: Kani::No,
            native: "consistent implementations of up to 2 names per kind with up to 3 changes to the bindings, the schema and the interface",
            reach: &["a name not bound", "a type not in the schema", "a name bound twice", "an unknown error", "a wrong time", "accepted"],
        },
        Contract {
            name: "iface_check",
            f: iface_check,
            fns: &["Iface::check"],
            kani: Kani::No,
            native: "interfaces of up to 2 declared names per kind, a genesis, a transition and an extension, odd references in one of them",
            reach: &["accepted", "an unknown reference", "a wrong operation", "required state absent", "a wrong time"],
        },
        Contract {
            name: "found",
            f: found,
            fns: &["Iface::find_abstractable_impl", "SchemaIfaces::get", "SchemaIfaces::contains"],
            kani: Kani::No,
            native: "up to 3 parents out of 4 interfaces, any of them and the interface itself implemented",
            reach: &["own", "a parent", "none"],
        },
        Contract {
            name: "class",
            f: class,
            fns: &["MemStash::impl_for", "MemStash::schemata_by", "MemStash::geneses_by", "MemStash::replace_iimpl"],
            kani: Kani::No,
            native: "all implementations of 4 interfaces by 2 schemata",
            reach: &["implemented", "inherited", "not implemented"],
        },
        Contract {
            name: "types",
            f: types,
            fns: &["Iface::types", "GlobalIface::optional", "GlobalIface::required", "GlobalIface::none_or_many", "GlobalIface::one_or_many"],
            kani: Kani::No,
            native: "up to 3 names per kind with every kind of declaration",
            reach: &["all", "none"],
        },
        Contract {
            name: "reqs",
            f: reqs,
            fns: &["Req::is_required", "Req::is_multiple", "GlobalIface::any", "AssignIface::public", "AssignIface::private", "OwnedIface::sem_id"],
            kani: Kani::Full,
            native: "all requirements and kinds of owned state, 256 types",
            reach: &["required", "multiple"],
        },
    ],
    findings: &[],
};

#[cfg(kani)]
mod k {
    crate::proof!([kani::unwind(34)] reqs = super::reqs []);
}
