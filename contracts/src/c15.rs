//! C15: batches keep every transition, its inputs and its seal-closing methods.

use std::collections::BTreeMap;

use amplify::confinement::Confined;
use bp::seals::txout::CloseMethod;
use rgbcore::{Operation, Opout, TxoSeal, XChain, XOutpoint};
use rgbstd::containers::{
    AnchorSet, Batch, BundleDichotomy, CloseMethodSet, Dichotomy, Fascia, PubWitness,
    TransitionDichotomy, TransitionInfo, TransitionInfoError,
};
use strict_encoding::StrictDumb;

use crate::fx;
use crate::registry::{Contract, Kani, Property};
use crate::src::Src;
use crate::{post, reach};

/// The set as membership bits: 1 tapret, 2 opret.
fn set(bits: u32) -> CloseMethodSet {
    match bits {
        1 => CloseMethodSet::TapretFirst,
        2 => CloseMethodSet::OpretFirst,
        _ => CloseMethodSet::Both,
    }
}
fn bits(m: CloseMethodSet) -> u32 {
    m.has_tapret_first() as u32 | (m.has_opret_first() as u32) << 1
}
fn opt(bits: u32) -> Option<CloseMethodSet> { if bits == 0 { None } else { Some(set(bits)) } }

fn methods<S: Src>(s: &mut S) {
    let (a, b) = (1 + s.below(3), s.below(4));
    reach!(s, a == 1 && b == 2, "different methods");
    reach!(s, b == 0, "nothing added");
    let x = set(a);
    post!(bits(x) == a, "set: membership");
    if b != 0 {
        post!(bits(x | set(b)) == a | b, "set: union keeps the methods of both");
        let mut y = x;
        y |= set(b);
        post!(bits(y) == a | b, "set: union in place");
    }
    post!(bits(x | opt(b)) == a | b, "set: union with an optional set");
    let mut y = x;
    y |= opt(b);
    post!(bits(y) == a | b, "set: union with an optional set in place");
    post!(bits(opt(b) | x) == a | b, "set: optional set united with a set");
    let mut y = opt(b);
    y |= x;
    post!(y.map(bits) == Some(a | b), "set: optional set united in place");
    let m = s.below(2);
    let (cm, mb) = if m == 0 { (CloseMethod::OpretFirst, 2) } else { (CloseMethod::TapretFirst, 1) };
    post!(bits(CloseMethodSet::from(cm)) == mb, "set: made of one method");
    post!(bits(x | cm) == a | mb, "set: method added");
    let mut y = x;
    y |= cm;
    post!(bits(y) == a | mb, "set: method added in place");
    post!(x as u8 as u32 == a, "set: byte form");
}

fn seal_method<S: Src>(s: &mut S) {
    let m = s.below(2);
    let n = s.below(5);
    reach!(s, m == 1, "tapret");
    let want = if m == 0 { 2 } else { 1 };
    post!(bits(CloseMethodSet::from(fx::output_seal(m, n))) == want, "set: made of the method of a seal");
}

fn dichotomy<S: Src>(s: &mut S) {
    let (a, b) = (s.u8(), s.u8());
    let two = s.below(2) == 1;
    reach!(s, two, "double");
    let want: &[u8] = if two { &[a, b] } else { &[a] };
    let how = s.below(3);
    let d = match (how, two) {
        (0, false) => Dichotomy::single(a),
        (0, true) => Dichotomy::double(a, b),
        (1, _) => Dichotomy::with(a, if two { Some(b) } else { None }),
        (_, false) => [a].into_iter().collect(),
        (_, true) => [a, b].into_iter().collect(),
    };
    post!(d.first == a, "pair: first");
    post!(d.second == if two { Some(b) } else { None }, "pair: second");
    let mut n = 0;
    for x in d.iter() {
        post!(n < want.len() && *x == want[n], "pair: iterates first, then second");
        n += 1;
    }
    post!(n == want.len(), "pair: iterates all");
    let mut n = 0;
    for x in d {
        post!(n < want.len() && x == want[n], "pair: iterates first, then second, consuming");
        n += 1;
    }
    post!(n == want.len(), "pair: iterates all, consuming");
}

fn tr(i: u32) -> rgbcore::Transition {
    let l = fx::typed(1, &[(0, XChain::Bitcoin(fx::graph_seal(0, i)), i)]);
    fx::transition(
        fx::contract_id(i % 3),
        i as u64,
        10,
        &[Opout::new(fx::opid(i), fx::aty(1), 0)],
        fx::assignments([(fx::aty(1), l)]),
    )
}

fn info<S: Src>(s: &mut S) {
    let n = 1 + s.below(3);
    let mut seals = vec![];
    for _ in 0..n {
        let (m, o) = (s.below(2), s.below(5));
        seals.push((m, o));
    }
    let mixed = seals.iter().any(|(m, _)| *m != seals[0].0);
    reach!(s, mixed, "mixed methods");
    reach!(s, !mixed && n == 3, "one method");
    let list: Vec<_> = seals.iter().map(|(m, o)| fx::output_seal(*m, *o)).collect();
    let t = tr(3);
    match TransitionInfo::new(t.clone(), &list) {
        Ok(i) => {
            post!(!mixed, "info: mixed closing methods are refused");
            post!(i.method == list[0].method(), "info: method of the inputs");
            post!(i.id == t.id(), "info: identifier of the transition");
            post!(fx::dbg(&i.transition) == fx::dbg(&t), "info: transition kept");
            let mut want: Vec<XOutpoint> = list.iter().copied().map(XOutpoint::from).collect();
            want.sort();
            want.dedup();
            post!(i.inputs.iter().copied().eq(want), "info: all inputs and no other");
        }
        Err(e) => {
            post!(mixed, "info: inputs of one method are accepted");
            post!(e == TransitionInfoError::CloseMethodDivergence(t.id()), "info: reason reported");
        }
    }
}

fn mk_info(i: u32, m: u32) -> TransitionInfo {
    TransitionInfo::new(tr(i), [fx::output_seal(m, i)]).unwrap()
}

fn mk_batch<S: Src>(s: &mut S) -> (Batch, Vec<(u32, u32)>) {
    let nb = s.below(4);
    let mut all = vec![];
    let mut pairs = vec![];
    for p in 0..=nb {
        let double = s.below(2) == 1;
        let m = s.below(2);
        all.push((2 * p, m));
        let second = if double {
            let m2 = s.below(2);
            all.push((2 * p + 1, m2));
            Some(mk_info(2 * p + 1, m2))
        } else {
            None
        };
        pairs.push(TransitionDichotomy::with(mk_info(2 * p, m), second));
    }
    let main = pairs.remove(0);
    (Batch { main, blanks: Confined::from_iter_checked(pairs) }, all)
}

fn batch<S: Src>(s: &mut S) {
    let (mut b, all) = mk_batch(s);
    reach!(s, all.len() == 4 && b.blanks.len() == 1, "double main and blank");
    let want = all.iter().fold(0, |a, (_, m)| a | if *m == 0 { 2 } else { 1 });
    reach!(s, want == 3, "both methods");
    post!(bits(b.close_method_set()) == want, "batch: exactly the methods of its transitions");
    let prio = s.u64();
    let before: BTreeMap<_, _> =
        b.clone().into_iter().map(|i| (i.transition.inputs.to_string_key(), i)).collect();
    post!(before.len() == all.len(), "batch: every transition once");
    b.set_priority(prio);
    let after: Vec<_> = b.into_iter().collect();
    post!(after.len() == all.len(), "batch: every transition once after setting priority");
    for (i, m) in &all {
        let mut t = tr(*i);
        t.nonce = prio;
        let mut found = 0;
        for x in &after {
            if x.inputs.iter().any(|o| *o == XOutpoint::from(fx::output_seal(*m, *i))) {
                found += 1;
                post!(fx::dbg(&x.transition) == fx::dbg(&t), "priority: set everywhere, all else kept");
                post!(x.id == t.id(), "priority: the identifier follows the transition");
                post!(x.method == fx::method(*m), "priority: method kept");
                post!(x.inputs.len() == 1, "priority: inputs kept");
            }
        }
        post!(found == 1, "batch: each transition stays with its own inputs");
        let x = &before[&tr(*i).inputs.to_string_key()];
        post!(x.id == tr(*i).id(), "batch: identifier of the transition");
        post!(fx::dbg(&x.transition) == fx::dbg(&tr(*i)), "batch: transition kept");
        post!(x.method == fx::method(*m), "batch: method kept");
    }
}

trait Key {
    fn to_string_key(&self) -> String;
}
impl Key for rgbcore::Inputs {
    fn to_string_key(&self) -> String { format!("{self:?}") }
}

fn fascia<S: Src>(s: &mut S) {
    let n = 1 + s.below(3);
    let mut want = vec![];
    let mut map = BTreeMap::new();
    for c in 0..n {
        let mk = |i: u32, m: u32| {
            let t = tr(c * 2 + i);
            fx::bundle(fx::method(m), &[(c * 2 + i, t.id())], vec![t])
        };
        let double = s.below(2) == 1;
        let m = s.below(2);
        want.push((fx::contract_id(c), mk(0, m)));
        let second = double.then(|| mk(1, 1 - m));
        if let Some(b) = &second {
            want.push((fx::contract_id(c), b.clone()));
        }
        map.insert(fx::contract_id(c), BundleDichotomy::with(mk(0, m), second));
    }
    reach!(s, want.len() > n as usize, "two bundles of one contract");
    let liquid = s.below(2) == 1;
    let w = PubWitness::with(fx::tx(7));
    let f = Fascia {
        witness: crate::toy::chain(liquid, w.clone()),
        anchor: AnchorSet::strict_dumb(),
        bundles: Confined::from_checked(map),
    };
    post!(f.witness_id() == crate::toy::chain(liquid, w.txid()), "fascia: identifier of its witness");
    let got: Vec<_> = f.into_bundles().into_iter().collect();
    post!(got.len() == want.len(), "fascia: every bundle once");
    for (c, b) in &want {
        post!(
            got.iter().filter(|(x, y)| x == c && fx::dbg(y) == fx::dbg(b)).count() == 1,
            "fascia: every bundle under its contract"
        );
    }
}

#[cfg(kani)]
mod k {
    use crate::proof;
    proof!([kani::unwind(4)] methods = super::methods []);
    proof!([kani::unwind(4)] dichotomy = super::dichotomy []);
}

pub const PROPERTY: Property = Property {
    id: "C15",
    module: "c15",
    contracts: &[
        Contract {
            name: "methods",
            f: methods,
            fns: &[
                "CloseMethodSet::bitor", "CloseMethodSet::bitor_assign",
                "Option<CloseMethodSet>::bitor", "Option<CloseMethodSet>::bitor_assign",
                "CloseMethodSet::from(CloseMethod)", "CloseMethodSet::has_tapret_first",
                "CloseMethodSet::has_opret_first",
            ],
            kani: Kani::Full,
            native: "all pairs of sets (exhaustive)",
            reach: &["different methods", "nothing added"],
        },
        Contract {
            name: "seal_method",
            f: seal_method,
            fns: &["CloseMethodSet::from(XOutputSeal)"],
            kani: Kani::No,
            native: "both methods, 5 outpoints",
            reach: &["tapret"],
        },
        Contract {
            name: "dichotomy",
            f: dichotomy,
            fns: &[
                "Dichotomy::single", "Dichotomy::double", "Dichotomy::with", "Dichotomy::iter",
                "Dichotomy::into_iter", "Dichotomy::from_iter",
            ],
            kani: Kani::Full,
            native: "all shapes, sampled items",
            reach: &["double"],
        },
        Contract {
            name: "info",
            f: info,
            fns: &["TransitionInfo::new"],
            kani: Kani::No,
            native: "up to 3 seals out of 10 (exhaustive)",
            reach: &["mixed methods", "one method"],
        },
        Contract {
            name: "batch",
            f: batch,
            fns: &["Batch::into_iter", "Batch::close_method_set", "Batch::set_priority"],
            kani: Kani::No,
            native: "batches of up to 4 single or double entries, sampled priorities",
            reach: &["double main and blank", "both methods"],
        },
        Contract {
            name: "fascia",
            f: fascia,
            fns: &["Fascia::into_bundles", "Fascia::witness_id"],
            kani: Kani::No,
            native: "up to 3 contracts with one or two bundles (exhaustive)",
            reach: &["two bundles of one contract"],
        },
    ],
    findings: &[],
};
