//! C12: an extended interface keeps the promises of its parents.

use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use rgbcore::{
    AssignmentType, ExtensionSchema, ExtensionType, FungibleType, GlobalStateSchema, GlobalStateType, Occurrences,
    OwnedStateSchema, Schema, TransitionSchema, TransitionType, ValencyType,
};
use rgbstd::interface::{
    AssignIface, CheckInheritance, ExtensionIface, GenesisIface, GlobalIface, Iface, IfaceId, Modifier, OwnedIface,
    TransitionIface, ValencyIface,
};
use strict_encoding::{FieldName, StrictSerialize, TypeName, VariantName};
use strict_types::SemId;

use crate::c13::{self, empty, extension, nm, sem, transition, variant};
use crate::registry::{Contract, Kani, Property};
use crate::src::Src;
use crate::{fx, post, reach, world};

type Map<V> = Confined<BTreeMap<FieldName, V>, 0, 255>;
type Set<T> = Confined<BTreeSet<T>, 0, 255>;
type Args = Map<Occurrences>;

const MODS: [Modifier; 3] = [Modifier::Abstract, Modifier::Override, Modifier::Final];

fn owned(n: u32, id: u8) -> OwnedIface {
    match n {
        0 => OwnedIface::Any,
        1 => OwnedIface::Rights,
        2 => OwnedIface::Amount,
        3 => OwnedIface::AnyData,
        4 => OwnedIface::AnyAttach,
        _ => OwnedIface::Data(SemId::from([id; 32])),
    }
}

fn rules<S: Src>(s: &mut S) {
    let (i, j) = (s.below(3) as usize, s.below(3) as usize);
    reach!(s, i == 0 && j == 2, "abstract by final");
    post!(MODS[i].is_final() == (i == 2), "rule: final");
    post!(MODS[i].can_be_overridden_by(MODS[j]) == (i != 2 && j != 0), "rule: overriding");
    let (a, b) = (s.below(6), s.below(6));
    let (x, y) = (s.below(2) as u8, s.below(2) as u8);
    reach!(s, a == 5 && b == 5 && x == y, "the same data");
    reach!(s, a == 5 && b == 5 && x != y, "other data");
    let narrower = a == 0 || (a == b && (a != 5 || x == y)) || (a == 3 && b == 5);
    post!(owned(a, x).is_superset(owned(b, y)) == narrower, "rule: narrower state");
}

fn occ<S: Src>(s: &mut S) -> Occurrences {
    match s.below(8) {
        0 => Occurrences::NoneOrMore,
        1 => Occurrences::Once,
        2 => Occurrences::NoneOrOnce,
        3 => Occurrences::OnceOrMore,
        4 => Occurrences::NoneOrUpTo(3),
        5 => Occurrences::OnceOrUpTo(3),
        6 => Occurrences::Exactly(2),
        _ => Occurrences::Range(2..=4),
    }
}
fn least(o: &Occurrences) -> u32 {
    match o {
        Occurrences::NoneOrMore | Occurrences::NoneOrOnce | Occurrences::NoneOrUpTo(_) => 0,
        Occurrences::Once | Occurrences::OnceOrMore | Occurrences::OnceOrUpTo(_) => 1,
        Occurrences::Exactly(n) => *n as u32,
        Occurrences::Range(r) => *r.start() as u32,
    }
}

/// Entries of the parent for the first two names and of the extension for the
/// last two: the one in common is equal unless `wild`.
fn two<S: Src, V: Clone>(s: &mut S, wild: bool, mut f: impl FnMut(&mut S, usize) -> V) -> (Map<V>, Map<V>) {
    let (mut p, mut e) = (BTreeMap::new(), BTreeMap::new());
    let present = s.below(8);
    let common = f(s, 1);
    if present & 1 != 0 {
        let v = if wild { f(s, 0) } else { common.clone() };
        p.insert(nm(0), v);
    }
    if present & 2 != 0 {
        p.insert(nm(1), common.clone());
        if wild || s.bool() {
            let v = if wild { f(s, 1) } else { common.clone() };
            e.insert(nm(1), v);
        }
    }
    if present & 4 != 0 {
        let v = if wild { f(s, 2) } else { common };
        e.insert(nm(2), v);
    }
    (Confined::from_checked(p), Confined::from_checked(e))
}
fn names<S: Src>(s: &mut S) -> (Set<FieldName>, Set<FieldName>) {
    let (p, e) = two(s, false, |_, _| ());
    (Confined::from_checked(p.keys().cloned().collect()), Confined::from_checked(e.keys().cloned().collect()))
}
fn variants<S: Src>(s: &mut S) -> (Set<VariantName>, Set<VariantName>) {
    let n = s.below(8) as usize;
    let of = |m: &[usize]| Confined::from_checked(m.iter().filter(|i| n >> **i & 1 == 1).map(|i| variant(*i)).collect());
    (of(&[0, 1]), of(&[1, 2]))
}
fn default<S: Src>(s: &mut S, wild: bool) -> (Option<FieldName>, Option<FieldName>) {
    let n = s.below(2) as usize;
    match s.below(if wild { 5 } else { 4 }) {
        0 => (None, None),
        1 => (Some(nm(n)), None),
        2 => (None, Some(nm(n))),
        3 => (Some(nm(n)), Some(nm(n))),
        _ => (Some(nm(n)), Some(nm(1 - n))),
    }
}
fn modifiers<S: Src>(s: &mut S, wild: bool) -> (Modifier, Modifier) {
    let (i, j) = if wild { (s.below(3), s.below(3)) } else { (s.below(2), 1 + s.below(2)) };
    (MODS[i as usize], MODS[j as usize])
}

fn genesis<S: Src>(s: &mut S, wild: u32) -> (GenesisIface, GenesisIface) {
    let m = modifiers(s, wild == 1);
    let mut r = (empty("X").genesis, empty("X").genesis);
    (r.0.modifier, r.1.modifier) = m;
    if s.bool() {
        (r.0.metadata, r.1.metadata) = names(s);
        (r.0.valencies, r.1.valencies) = names(s);
        (r.0.errors, r.1.errors) = variants(s);
    }
    if wild > 1 || s.bool() {
        (r.0.globals, r.1.globals) = two(s, wild == 2, |s, _| occ(s));
        (r.0.assignments, r.1.assignments) = two(s, wild == 3, |s, _| occ(s));
    }
    r
}
fn transitions<S: Src>(s: &mut S, wild: u32) -> (TransitionIface, TransitionIface) {
    let m = modifiers(s, wild == 1);
    let mut r = (transition(), transition());
    (r.0.modifier, r.1.modifier) = m;
    (r.0.optional, r.1.optional) = (s.bool(), s.bool());
    if s.bool() {
        (r.0.metadata, r.1.metadata) = names(s);
        (r.0.valencies, r.1.valencies) = names(s);
        (r.0.errors, r.1.errors) = variants(s);
    }
    if wild > 1 || s.bool() {
        (r.0.globals, r.1.globals) = two(s, wild == 2, |s, _| occ(s));
        (r.0.assignments, r.1.assignments) = two(s, wild == 3, |s, _| occ(s));
        (r.0.inputs, r.1.inputs) = two(s, wild == 4, |s, _| occ(s));
        (r.0.default_assignment, r.1.default_assignment) = default(s, wild == 5);
    }
    r
}
fn extensions<S: Src>(s: &mut S, wild: u32) -> (ExtensionIface, ExtensionIface) {
    let m = modifiers(s, wild == 1);
    let mut r = (extension(), extension());
    (r.0.modifier, r.1.modifier) = m;
    (r.0.optional, r.1.optional) = (s.bool(), s.bool());
    if s.bool() {
        (r.0.metadata, r.1.metadata) = names(s);
        (r.0.valencies, r.1.valencies) = names(s);
        (r.0.redeems, r.1.redeems) = names(s);
        (r.0.errors, r.1.errors) = variants(s);
    }
    if wild > 1 || s.bool() {
        (r.0.globals, r.1.globals) = two(s, wild == 2, |s, _| occ(s));
        (r.0.assignments, r.1.assignments) = two(s, wild == 3, |s, _| occ(s));
        (r.0.default_assignment, r.1.default_assignment) = default(s, wild == 5);
    }
    r
}

/// What either has; none if the second one does not narrow the first one.
fn join<V: Clone>(p: &Map<V>, e: &Map<V>, narrows: impl Fn(&V, &V) -> bool) -> Option<Map<V>> {
    let mut r = (**p).clone();
    for (n, v) in e {
        if let Some(o) = r.insert(n.clone(), v.clone()) {
            if !narrows(&o, v) {
                return None;
            }
        }
    }
    Some(Confined::from_checked(r))
}
fn args(p: &Args, e: &Args) -> Option<Args> { join(p, e, |p, e| least(p) <= least(e)) }
fn both<T: Ord + Clone>(p: &Set<T>, e: &Set<T>) -> Set<T> {
    Confined::from_checked(p.iter().chain(e.iter()).cloned().collect())
}
fn either(p: &Option<FieldName>, e: &Option<FieldName>) -> Option<Option<FieldName>> {
    match (p, e) {
        (Some(a), Some(b)) if a != b => None,
        (None, x) => Some(x.clone()),
        (x, _) => Some(x.clone()),
    }
}
fn overridden(p: Modifier, e: Modifier) -> Option<Modifier> { (p != Modifier::Final && e != Modifier::Abstract).then_some(e) }

fn join_genesis(p: &GenesisIface, e: &GenesisIface) -> Option<GenesisIface> {
    Some(GenesisIface {
        modifier: overridden(p.modifier, e.modifier)?,
        metadata: both(&p.metadata, &e.metadata),
        globals: args(&p.globals, &e.globals)?,
        assignments: args(&p.assignments, &e.assignments)?,
        valencies: both(&p.valencies, &e.valencies),
        errors: both(&p.errors, &e.errors),
    })
}
fn join_transition(p: &TransitionIface, e: &TransitionIface) -> Option<TransitionIface> {
    Some(TransitionIface {
        modifier: overridden(p.modifier, e.modifier)?,
        optional: p.optional && e.optional,
        metadata: both(&p.metadata, &e.metadata),
        globals: args(&p.globals, &e.globals)?,
        inputs: args(&p.inputs, &e.inputs)?,
        assignments: args(&p.assignments, &e.assignments)?,
        valencies: both(&p.valencies, &e.valencies),
        errors: both(&p.errors, &e.errors),
        default_assignment: either(&p.default_assignment, &e.default_assignment)?,
    })
}
fn join_extension(p: &ExtensionIface, e: &ExtensionIface) -> Option<ExtensionIface> {
    Some(ExtensionIface {
        modifier: overridden(p.modifier, e.modifier)?,
        optional: p.optional && e.optional,
        metadata: both(&p.metadata, &e.metadata),
        globals: args(&p.globals, &e.globals)?,
        assignments: args(&p.assignments, &e.assignments)?,
        redeems: both(&p.redeems, &e.redeems),
        valencies: both(&p.valencies, &e.valencies),
        errors: both(&p.errors, &e.errors),
        default_assignment: either(&p.default_assignment, &e.default_assignment)?,
    })
}
/// Optional operations override those of the parent, but are not added to it.
fn join_ops<V: Clone>(p: &Map<V>, e: &Map<V>, optional: impl Fn(&V) -> bool, join: impl Fn(&V, &V) -> Option<V>) -> Option<Map<V>> {
    let mut r = (**p).clone();
    for (n, v) in e {
        match p.get(n) {
            Some(o) => drop(r.insert(n.clone(), join(o, v)?)),
            None if optional(v) => {}
            None => drop(r.insert(n.clone(), v.clone())),
        }
    }
    Some(Confined::from_checked(r))
}
fn narrower(p: OwnedIface, e: OwnedIface) -> bool {
    p == OwnedIface::Any || p == e || (p == OwnedIface::AnyData && matches!(e, OwnedIface::Data(_)))
}

fn model(p: &Iface, e: &Iface, title: &str) -> Option<Iface> {
    let mut r = p.clone();
    r.name = TypeName::try_from(title.to_owned()).unwrap();
    r.metadata = join(&p.metadata, &e.metadata, |p, e| p == e)?;
    r.global_state =
        join(&p.global_state, &e.global_state, |p, e| (p.sem_id.is_none() || p.sem_id == e.sem_id) && (e.required || !p.required))?;
    r.assignments = join(&p.assignments, &e.assignments, |p, e| {
        narrower(p.owned_state, e.owned_state) && (e.required || !p.required) && (e.public || !p.public)
    })?;
    r.valencies = join(&p.valencies, &e.valencies, |p, e| e.required || !p.required)?;
    r.genesis = join_genesis(&p.genesis, &e.genesis)?;
    r.transitions = join_ops(&p.transitions, &e.transitions, |o| o.optional, join_transition)?;
    r.extensions = join_ops(&p.extensions, &e.extensions, |o| o.optional, join_extension)?;
    let mut errors = (*p.errors).clone();
    errors.extend(e.errors.iter().map(|(k, v)| (k.clone(), v.clone())));
    r.errors = Confined::from_checked(errors);
    r.default_operation = either(&p.default_operation, &e.default_operation)?;
    let ids = p.inherits.iter().copied().chain([p.iface_id()]).chain(e.inherits.iter().copied()).chain([e.iface_id()]);
    r.inherits = Confined::from_checked(ids.collect());
    Some(r)
}

fn bytes(i: &Iface) -> Vec<u8> { i.to_strict_serialized::<0xFFFFFF>().unwrap().release() }

/// A parent and an extension, compatible but for one part in which anything goes.
fn pair<S: Src>(s: &mut S) -> (Iface, Iface) {
    let wild = s.below(20);
    let (mut p, mut e) = (empty("Parent"), empty("Child"));
    e.timestamp += 1;
    if wild == 1 || s.bool() {
        (p.metadata, e.metadata) = two(s, wild == 1, |s, _| sem(s.below(2)));
        (p.valencies, e.valencies) = two(s, wild == 4, |s, _| ValencyIface { required: s.bool() });
    }
    if wild == 2 || s.bool() {
        (p.global_state, e.global_state) = two(s, wild == 2, |s, _| GlobalIface {
            sem_id: Some(s.below(3)).filter(|n| *n > 0).map(sem),
            required: s.bool(),
            multiple: s.bool(),
        });
    }
    if wild == 3 || s.bool() {
        (p.assignments, e.assignments) = two(s, wild == 3, |s, _| AssignIface {
            owned_state: owned(s.below(7).min(5), s.below(2) as u8),
            public: s.bool(),
            required: s.bool(),
            multiple: s.bool(),
        });
    }
    if wild == 5 || s.bool() {
        (p.default_operation, e.default_operation) = default(s, wild == 5);
        let (pe, ee) = variants(s);
        p.errors = Confined::from_checked(pe.iter().map(|n| (n.clone(), Default::default())).collect());
        e.errors = Confined::from_checked(ee.iter().map(|n| (n.clone(), Confined::try_from("why".to_owned()).unwrap())).collect());
        p.inherits = Confined::from_checked((0..s.below(3)).map(|n| IfaceId::from(fx::b32(930 + n))).collect());
        e.inherits = Confined::from_checked((0..s.below(3)).map(|n| IfaceId::from(fx::b32(932 + n))).collect());
    }
    (p.genesis, e.genesis) = genesis(s, if (6..9).contains(&wild) { wild - 5 } else { 0 });
    let w = if (9..14).contains(&wild) { wild - 8 } else { 0 };
    if w > 0 || s.bool() {
        let (a, b) = transitions(s, w);
        let (x, y) = (s.below(4), s.below(4));
        if x > 0 {
            p.transitions.insert(nm(x.min(2) as usize), a).unwrap();
        }
        if y > 0 {
            e.transitions.insert(nm(y.min(2) as usize), b).unwrap();
        }
    }
    let w = if (14..19).contains(&wild) { wild - 13 } else { 0 };
    if w > 0 || s.bool() {
        let (a, b) = extensions(s, w);
        let (x, y) = (s.below(4), s.below(4));
        if x > 0 {
            p.extensions.insert(nm(x.min(2) as usize), a).unwrap();
        }
        if y > 0 {
            e.extensions.insert(nm(y.min(2) as usize), b).unwrap();
        }
    }
    (p, e)
}

fn extended<S: Src>(s: &mut S) {
    let (p, e) = pair(s);
    let want = model(&p, &e, "Joint");
    let shared = |a: &Iface, b: &Iface| a.transitions.keys().any(|n| b.transitions.contains_key(n)) && a.extensions.keys().any(|n| b.extensions.contains_key(n));
    reach!(s, want.is_some() && shared(&p, &e), "accepted with overridden operations");
    reach!(s, want.is_none(), "refused");
    let got = p.clone().extended(e.clone(), TypeName::try_from("Joint".to_owned()).unwrap());
    match (got, want) {
        (Ok(got), Some(want)) => {
            post!(bytes(&got) == bytes(&want), "extension: the parts of both, narrowed as the extension says");
            post!(got.inherits.contains(&p.iface_id()) && got.inherits.contains(&e.iface_id()), "extension: both parents known");
        }
        (Err(errs), None) => post!(!errs.is_empty(), "extension: reasons of the refusal given"),
        (Ok(_), None) => post!(false, "extension: a broken promise refused"),
        (Err(_), Some(_)) => post!(false, "extension: a kept promise accepted"),
    }
}

fn inherit<S: Src>(s: &mut S) {
    let (p, e) = pair(s);
    let (_, mut x) = pair(s);
    x.name = TypeName::try_from("Third".to_owned()).unwrap();
    let three = s.bool();
    let title = || TypeName::try_from("Joint".to_owned()).unwrap();
    let mut list = vec![p.clone(), e.clone()];
    let mut want = model(&p, &e, "Joint");
    if three {
        list.push(x.clone());
        want = want.and_then(|i| model(&i, &x, "Joint"));
    }
    reach!(s, three && want.is_some(), "three interfaces");
    reach!(s, want.is_none(), "refused");
    let got = Iface::inherit(title(), list);
    post!(got.is_ok() == want.is_some(), "inheritance: accepted exactly when every step is");
    if let (Ok(got), Some(want)) = (got, want) {
        post!(bytes(&got) == bytes(&want), "inheritance: the parts of all the interfaces");
    }
}

fn many<V: Clone>(from: usize, n: usize, v: V) -> Map<V> {
    Confined::from_checked((from..from + n).map(|i| (FieldName::try_from(format!("f{i}")).unwrap(), v.clone())).collect())
}
fn limits<S: Src>(s: &mut S) {
    let what = s.below(12);
    let n = [1usize, 254, 255][s.below(3) as usize];
    let m = [0usize, 1, 2][s.below(3) as usize];
    let fits = n + m <= 255;
    reach!(s, fits && n + m == 255, "just fits");
    reach!(s, !fits, "too many");
    let (mut p, mut e) = (empty("Parent"), empty("Child"));
    p.genesis.modifier = Modifier::Override;
    let o = Occurrences::Once;
    let sets = || (many(0, n, ()).keys().cloned().collect(), many(n, m, ()).keys().cloned().collect());
    let v = |i: usize| VariantName::try_from(format!("v{i}")).unwrap();
    match what {
        0 => (p.metadata, e.metadata) = (many(0, n, sem(0)), many(n, m, sem(0))),
        1 => (p.global_state, e.global_state) = (many(0, n, GlobalIface::required(sem(0))), many(n, m, GlobalIface::required(sem(0)))),
        2 => {
            let a = AssignIface { owned_state: OwnedIface::Amount, public: false, required: false, multiple: true };
            (p.assignments, e.assignments) = (many(0, n, a), many(n, m, a))
        }
        3 => (p.valencies, e.valencies) = (many(0, n, ValencyIface { required: true }), many(n, m, ValencyIface { required: true })),
        4 => (p.transitions, e.transitions) = (many(0, n, transition()), many(n, m, transition())),
        5 => (p.extensions, e.extensions) = (many(0, n, extension()), many(n, m, extension())),
        6 => {
            p.errors = Confined::from_checked((0..n).map(|i| (v(i), Default::default())).collect());
            e.errors = Confined::from_checked((n..n + m).map(|i| (v(i), Default::default())).collect());
        }
        7 => (p.genesis.globals, e.genesis.globals) = (many(0, n, o.clone()), many(n, m, o)),
        8 => (p.genesis.assignments, e.genesis.assignments) = (many(0, n, o.clone()), many(n, m, o)),
        9 => {
            let (a, b): (BTreeSet<_>, BTreeSet<_>) = sets();
            (p.genesis.metadata, e.genesis.metadata) = (Confined::from_checked(a), Confined::from_checked(b))
        }
        10 => {
            let (a, b): (BTreeSet<_>, BTreeSet<_>) = sets();
            (p.genesis.valencies, e.genesis.valencies) = (Confined::from_checked(a), Confined::from_checked(b))
        }
        _ => {
            // Both interfaces are added to the parents.
            s.assume(n + m != 254 && n + m != 255);
            let ids = |a: usize, b: usize| Confined::from_checked((a..b).map(|i| IfaceId::from(fx::b32(2000 + i as u32))).collect());
            (p.inherits, e.inherits) = (ids(0, n), ids(n, n + m));
        }
    }
    let fits = if what == 11 { n + m + 2 <= 255 } else { fits };
    let got = p.clone().extended(e.clone(), TypeName::try_from("Joint".to_owned()).unwrap());
    post!(got.is_ok() == fits, "limits: accepted exactly when everything fits");
    if let Ok(got) = got {
        post!(bytes(&got) == bytes(&model(&p, &e, "Joint").unwrap()), "limits: the parts of both");
    }
}

fn abstracted<S: Src>(s: &mut S) {
    // A parent with the first name of each kind or the first two, its child has three.
    let mut parent = empty("Parent");
    parent.genesis.modifier = Modifier::Override;
    let mut has = [0usize; 7];
    for h in &mut has {
        *h = s.below(3) as usize;
    }
    fill(&mut parent, &has);
    let mut ext = empty("Ext");
    fill(&mut ext, &[0; 7]);
    for k in 0..7 {
        let mut only = [0usize; 7];
        only[k] = 3;
        let mut x = empty("X");
        fill(&mut x, &only);
        match k {
            0 => ext.metadata = x.metadata,
            1 => ext.global_state = x.global_state,
            2 => ext.assignments = x.assignments,
            3 => ext.valencies = x.valencies,
            4 => ext.transitions = rest(x.transitions, has[4]),
            5 => ext.extensions = rest(x.extensions, has[5]),
            _ => ext.errors = x.errors,
        }
    }
    let base = parent.clone().extended(ext, TypeName::try_from("Base".to_owned()).unwrap());
    post!(base.is_ok(), "abstraction: the child made");
    let base = base.unwrap();
    // Names bound to types in the reverse order.
    let all: BTreeSet<(usize, u16)> = (0..3).map(|n| (n, 2 - n as u16)).collect();
    let binds: c13::Binds = std::array::from_fn(|_| all.clone());
    let mut i = c13::iimpl(&binds);
    i.iface_id = base.iface_id();
    reach!(s, has.iter().all(|h| *h == 2), "two of everything");
    reach!(s, has.iter().all(|h| *h == 0), "an empty parent");
    let stranger = empty("Stranger");
    post!(i.clone().abstracted(&base, &stranger).is_none(), "abstraction: for parents only");
    let want: c13::Binds = std::array::from_fn(|k| all.iter().copied().filter(|x| x.0 < has[k]).collect());
    let mut want = c13::iimpl(&want);
    want.iface_id = parent.iface_id();
    let got = i.clone().abstracted(&base, &parent);
    post!(got.is_some(), "abstraction: for every parent");
    let got = got.unwrap();
    post!(format!("{got:?}") == format!("{want:?}"), "abstraction: exactly the names of the parent, bound as before");
    let types = std::array::from_fn(|_| BTreeSet::from([0, 1, 2]));
    post!(got.check(&parent, &c13::schema(&types)).is_ok(), "abstraction: implements the parent");
}
fn rest<V: Clone>(m: Map<V>, n: usize) -> Map<V> {
    Confined::from_checked(m.iter().filter(|(k, _)| (n..3).any(|i| nm(i) == **k)).map(|(k, v)| (k.clone(), v.clone())).collect())
}
fn fill(i: &mut Iface, has: &[usize; 7]) {
    fn of<V: Clone>(n: usize, v: V) -> Map<V> { Confined::from_checked((0..n).map(|i| (nm(i), v.clone())).collect()) }
    i.metadata = of(has[0], sem(0));
    i.global_state = of(has[1], GlobalIface::required(sem(1)));
    i.assignments = of(has[2], AssignIface { owned_state: OwnedIface::Amount, public: false, required: true, multiple: true });
    i.valencies = of(has[3], ValencyIface { required: false });
    i.transitions = of(has[4], transition());
    i.extensions = of(has[5], extension());
    i.errors = Confined::from_checked((0..has[6]).map(|n| (variant(n), Default::default())).collect());
}

/// A schema operation: globals, assignments, inputs with occurrences, redeemed
/// and public valencies.
type SchOp = ([BTreeMap<u16, u8>; 3], [BTreeSet<u16>; 2]);
type Sch = (BTreeMap<u16, u8>, BTreeMap<u16, u8>, BTreeSet<u16>, [Option<SchOp>; 5]);

fn build(m: &Sch) -> Schema {
    fn o(n: u8) -> Occurrences { [Occurrences::Once, Occurrences::NoneOrMore, Occurrences::Exactly(2)][n as usize].clone() }
    fn globals(m: &BTreeMap<u16, u8>) -> Confined<BTreeMap<GlobalStateType, Occurrences>, 0, 255> {
        Confined::from_checked(m.iter().map(|(t, n)| (GlobalStateType::with(*t), o(*n))).collect())
    }
    fn assigns(m: &BTreeMap<u16, u8>) -> Confined<BTreeMap<AssignmentType, Occurrences>, 0, 255> {
        Confined::from_checked(m.iter().map(|(t, n)| (AssignmentType::with(*t), o(*n))).collect())
    }
    fn vals(m: &BTreeSet<u16>) -> Confined<BTreeSet<ValencyType>, 0, 255> {
        Confined::from_checked(m.iter().map(|t| ValencyType::with(*t)).collect())
    }
    let mut s = world::kinds(0).schema.clone();
    let kinds = [OwnedStateSchema::Declarative, OwnedStateSchema::Fungible(FungibleType::Unsigned64Bit), OwnedStateSchema::Structured(sem(0))];
    let glob = [GlobalStateSchema::once(sem(0)), GlobalStateSchema::many(sem(0)), GlobalStateSchema::once(sem(1))];
    s.global_types = Confined::from_checked(m.0.iter().map(|(t, n)| (GlobalStateType::with(*t), glob[*n as usize].clone())).collect());
    s.owned_types = Confined::from_checked(m.1.iter().map(|(t, n)| (AssignmentType::with(*t), kinds[*n as usize].clone())).collect());
    s.valency_types = vals(&m.2);
    let g = m.3[0].as_ref().unwrap();
    s.genesis.globals = globals(&g.0[0]);
    s.genesis.assignments = assigns(&g.0[1]);
    s.genesis.valencies = vals(&g.1[1]);
    s.transitions = Confined::from_checked(
        (1..3u16)
            .filter_map(|i| {
                let op = m.3[i as usize].as_ref()?;
                let t = TransitionSchema {
                    globals: globals(&op.0[0]),
                    assignments: assigns(&op.0[1]),
                    inputs: assigns(&op.0[2]),
                    valencies: vals(&op.1[1]),
                    ..Default::default()
                };
                Some((TransitionType::with(i), t))
            })
            .collect(),
    );
    s.extensions = Confined::from_checked(
        (3..5u16)
            .filter_map(|i| {
                let op = m.3[i as usize].as_ref()?;
                let t = ExtensionSchema {
                    globals: globals(&op.0[0]),
                    assignments: assigns(&op.0[1]),
                    redeems: vals(&op.1[0]),
                    valencies: vals(&op.1[1]),
                    ..Default::default()
                };
                Some((ExtensionType::with(i), t))
            })
            .collect(),
    );
    s
}

fn schemata<S: Src>(s: &mut S) {
    // A root with entries for the types 1 and 2 everywhere; a child which leaves
    // some out and alters one part.
    let root_op: SchOp = (std::array::from_fn(|_| BTreeMap::from([(1, 0), (2, 1)])), std::array::from_fn(|_| BTreeSet::from([1, 2])));
    let root: Sch = (
        BTreeMap::from([(1, 0), (2, 1)]),
        BTreeMap::from([(1, 0), (2, 1)]),
        BTreeSet::from([1, 2]),
        std::array::from_fn(|i| (i != 2 && i != 4).then(|| root_op.clone())),
    );
    let mut child = root.clone();
    for _ in 0..s.below(3) {
        let t = 1 + s.below(2) as u16;
        let i = s.below(5) as usize;
        match s.below(7) {
            0 => drop(child.0.remove(&t)),
            1 => drop(child.1.remove(&t)),
            2 => drop(child.2.remove(&t)),
            3 if i > 0 => child.3[i] = None,
            n => {
                if let Some(op) = &mut child.3[i] {
                    if n < 6 {
                        op.0[s.below(3) as usize].remove(&t);
                    } else {
                        op.1[s.below(2) as usize].remove(&t);
                    }
                }
            }
        }
    }
    if s.bool() {
        let (t, v) = (1 + s.below(3) as u16, s.below(3) as u8);
        let i = s.below(5) as usize;
        match s.below(7) {
            0 => drop(child.0.insert(t, v)),
            1 => drop(child.1.insert(t, v)),
            2 => drop(child.2.insert(t)),
            3 => child.3[i] = Some(root_op.clone()),
            n => {
                if let Some(op) = &mut child.3[i] {
                    if n < 6 {
                        op.0[s.below(3) as usize].insert(t, v);
                    } else {
                        op.1[s.below(2) as usize].insert(t);
                    }
                }
            }
        }
    }
    let sub = |a: &BTreeMap<u16, u8>, b: &BTreeMap<u16, u8>| a.iter().all(|(t, n)| b.get(t) == Some(n));
    let ops = (0..5).all(|i| match (&child.3[i], &root.3[i]) {
        (None, _) => true,
        (Some(_), None) => false,
        (Some(a), Some(b)) => {
            sub(&a.0[0], &b.0[0])
                && sub(&a.0[1], &b.0[1])
                && (i != 1 || sub(&a.0[2], &b.0[2]))
                && (i < 3 || a.1[0].is_subset(&b.1[0]))
                && a.1[1].is_subset(&b.1[1])
        }
    });
    let types = sub(&child.0, &root.0) && sub(&child.1, &root.1) && child.2.is_subset(&root.2);
    reach!(s, types && ops && child.0.len() < 2, "fewer types");
    reach!(s, types && ops && child.3[3].is_none(), "fewer operations");
    reach!(s, !types && ops, "other types");
    reach!(s, types && !ops, "other operations");
    let got = build(&child).check_inheritance(&build(&root));
    post!(got.is_ok() == (types && ops), "schema: inherits exactly when it has nothing else than the root");
}

pub const PROPERTY: Property = Property {
    id: "C12",
    module: "c12",
    contracts: &[
        Contract {
            name: "rules",
            f: rules,
            fns: &["Modifier::is_final", "Modifier::can_be_overridden_by", "OwnedIface::is_superset"],
            kani: Kani::Full,
            native: "all pairs of modifiers, of kinds of owned state and two data types",
            reach: &["abstract by final", "the same data", "other data"],
        },
        Contract {
            name: "extended",
            f: extended,
            fns: &["Iface::extended", "GenesisIface::extended", "TransitionIface::extended", "ExtensionIface::extended"],
            kani: Kani::No,
            native: "parents and extensions with up to 3 names of each kind, one part of them arbitrary, the others compatible",
            reach: &["accepted with overridden operations", "refused"],
        },
        Contract {
            name: "inherit",
            f: inherit,
            fns: &["Iface::inherit"],
            kani: Kani::No,
            native: "two or three interfaces as above",
            reach: &["three interfaces", "refused"],
        },
        Contract {
            name: "limits",
            f: limits,
            fns: &["Iface::extended", "GenesisIface::extended"],
            kani: Kani::No,
            native: "each of 12 parts with 1, 254 or 255 entries extended by up to 2 (exhaustive)",
            reach: &["just fits", "too many"],
        },
        Contract {
            name: "abstracted",
            f: abstracted,
            fns: &["IfaceImpl::abstracted"],
            kani: Kani::No,
            native: "parents with up to 2 names of each kind, a child with 3 (exhaustive)",
            reach: &["two of everything", "an empty parent"],
        },
        Contract {
            name: "schemata",
            f: schemata,
            fns: &["Schema::check_inheritance"],
            kani: Kani::No,
            native: "children of a root with 2 types of each kind and 3 operations, up to 2 parts left out and one altered",
            reach: &["fewer types", "fewer operations", "other types", "other operations"],
        },
    ],
    findings: &[],
};

#[cfg(kani)]
mod k {
    crate::proof!([kani::unwind(34)] rules = super::rules []);
}
