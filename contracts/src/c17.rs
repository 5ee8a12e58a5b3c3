//! C17: anchors stay paired with the bundles they commit to.
//# assumes: merging of commitment blocks of the same tree (commit_verify) keeps what either reveals

use std::collections::BTreeSet;

use amplify::ByteArray;
use bp::dbc::opret::OpretProof;
use bp::dbc::tapret::TapretProof;
use bp::dbc::Anchor;
use rgbcore::validation::{ConsignmentApi, DbcProof, OpRef};
use rgbcore::{Operation, Opout, TransitionBundle, XChain};
use rgbstd::containers::{AnchorSet, AnchoredBundleMismatch, ClientBundle, IndexedConsignment, PubWitness, SealWitness, ToWitnessId, WitnessBundle};
use strict_encoding::StrictDumb;

use crate::fx;
use crate::registry::{Contract, Kani, Property};
use crate::src::Src;
use crate::toy::chain;
use crate::{post, reach};

fn dbc(m: u32) -> DbcProof {
    if m == 0 {
        DbcProof::Opret(OpretProof::strict_dumb())
    } else {
        DbcProof::Tapret(TapretProof::strict_dumb())
    }
}

fn tr(i: u32) -> rgbcore::Transition {
    fx::transition(
        fx::contract_id(1),
        i as u64,
        10,
        &[Opout::new(fx::opid(i), fx::aty(1), 0)],
        fx::assignments([(fx::aty(1), fx::typed(0, &[(0, XChain::Bitcoin(fx::graph_seal(0, i)), i)]))]),
    )
}

fn bun(m: u32, n: u32) -> TransitionBundle {
    fx::bundle(fx::method(m), &[(n, tr(n).id())], vec![tr(n)])
}

fn pairing<S: Src>(s: &mut S) {
    let (m1, m2) = (s.below(2), s.below(2));
    let n = s.below(3);
    let liquid = s.below(2) == 1;
    let w = chain(liquid, PubWitness::with(fx::tx(n)));
    let wid = chain(liquid, fx::tx(n).txid());
    let cb = |m: u32, p: u32| ClientBundle::new(fx::mpc_proof(10 * m + p), dbc(m), bun(m, p));
    post!(cb(m1, 1).bundle_id() == bun(m1, 1).bundle_id(), "client bundle: identifier of its bundle");
    let one = WitnessBundle::with(w.clone(), cb(m1, 1));
    check(&one, &[(m1, 1)]);
    post!(one.witness_id() == wid, "witness bundle: identifier of its witness");
    reach!(s, m1 == 0 && m2 == 1, "opret, then tapret");
    reach!(s, m1 == 1 && m2 == 0, "tapret, then opret");
    reach!(s, m1 == m2, "same method");
    match one.into_double(cb(m2, 2)) {
        Ok(two) => {
            post!(m1 != m2, "combine: parts of the same method are refused");
            let want = if m1 == 1 { [(m1, 1), (m2, 2)] } else { [(m2, 2), (m1, 1)] };
            check(&two, &want);
            post!(two.witness_id() == wid, "combine: witness kept");
            let m3 = s.below(2);
            post!(
                two.into_double(cb(m3, 3)) == Err(AnchoredBundleMismatch::AlreadyDouble(wid)),
                "combine: a third part is refused"
            );
        }
        Err(e) => {
            post!(m1 == m2, "combine: parts of different methods are accepted");
            post!(e == AnchoredBundleMismatch::SameBundleType(wid), "combine: reason reported");
        }
    }
}

/// `w` consists of exactly the given (method, number) parts, each bundle with its
/// own anchor.
fn check(w: &WitnessBundle, want: &[(u32, u32)]) {
    let mut got: Vec<_> = w.anchored_bundles().map(|(a, b)| (a, b.clone())).collect();
    pairs(&mut got, want);
    let mut got: Vec<_> = w.anchored_bundles.iter().map(|(a, b)| (a, b.clone())).collect();
    pairs(&mut got, want);
    let mut got: Vec<_> = w.anchored_bundles.clone().into_iter().collect();
    pairs(&mut got, want);
    let mut a: Vec<_> = w.anchored_bundles.bundles().map(|b| b.bundle_id()).collect();
    let mut b: Vec<_> = w.anchored_bundles.clone().into_bundles().map(|b| b.bundle_id()).collect();
    let mut c: Vec<_> = want.iter().map(|(m, p)| bun(*m, *p).bundle_id()).collect();
    let mut t: Vec<_> = w.known_transitions().map(|t| t.id()).collect();
    let mut u: Vec<_> = want.iter().map(|(_, p)| tr(*p).id()).collect();
    for x in [&mut a, &mut b, &mut c] {
        x.sort();
    }
    t.sort();
    u.sort();
    post!(a == c, "bundles: exactly those put in");
    post!(b == c, "bundles: exactly those put in, consuming");
    post!(t == u, "transitions: exactly those of the bundles");
}

fn pairs(got: &mut Vec<(rgbcore::validation::EAnchor, TransitionBundle)>, want: &[(u32, u32)]) {
    post!(got.len() == want.len(), "pairs: every bundle once");
    for (m, p) in want {
        let x = got.iter().find(|(_, b)| b.bundle_id() == bun(*m, *p).bundle_id());
        post!(x.is_some(), "pairs: every bundle is there");
        let (a, b) = x.unwrap();
        post!(a.mpc_proof == fx::mpc_proof(10 * m + p), "pairs: bundle comes with its own merkle proof");
        post!(a.dbc_proof == dbc(*m), "pairs: bundle comes with the proof of its method");
        post!(fx::dbg(b) == fx::dbg(&bun(*m, *p)), "pairs: bundle unchanged");
        post!(b.close_method == fx::method(*m), "pairs: method kept");
    }
}

fn reveal<S: Src>(s: &mut S) {
    let m = s.below(2);
    let n = 1 + s.below(3);
    let mut known = vec![];
    for i in 0..n {
        if s.bool() {
            known.push(i);
        }
    }
    let pick = s.below(n + 1);
    reach!(s, pick < n && !known.contains(&pick) && known.len() == 2, "new transition");
    reach!(s, pick == n, "unrelated transition");
    let entries: Vec<_> = (0..n).map(|i| (i, tr(i).id())).collect();
    let mk = |k: &[u32]| {
        let b = fx::bundle(fx::method(m), &entries, k.iter().map(|i| tr(*i)).collect());
        ClientBundle::new(fx::mpc_proof(1), dbc(m), b)
    };
    // a bundle without a known transition cannot be represented
    s.assume(!known.is_empty());
    let mut c = mk(&known);
    let r = c.reveal_transition(tr(pick));
    let mut want = known.clone();
    if pick < n && !known.contains(&pick) {
        want.push(pick);
    }
    match r {
        Ok(new) => {
            post!(pick < n, "reveal: unrelated transition is refused");
            post!(new == !known.contains(&pick), "reveal: reports whether it was new");
        }
        Err(_) => post!(pick == n, "reveal: a transition of the bundle is accepted"),
    }
    post!(fx::dbg(&c) == fx::dbg(&mk(&want)), "reveal: the transition is added, all else kept");
}

/// Part: which of the three contracts of the tree it reveals; 0 means no anchor
/// of that method.
fn anchors(t: u32, o: u32, tree_t: u32, tree_o: u32) -> Option<AnchorSet> {
    let block = |mask: u32, tree: u32, m: u32| {
        let msgs: Vec<_> = (0..3).map(|c| (c, msg(m, tree, c))).collect();
        let rev: Vec<_> = (0..3).filter(|c| mask >> c & 1 == 1).collect();
        fx::merkle_block(&msgs, &rev)
    };
    let tap = || Anchor::new(block(t, tree_t, 1), TapretProof::strict_dumb());
    let opr = || Anchor::new(block(o, tree_o, 0), OpretProof::strict_dumb());
    match (t, o) {
        (0, 0) => None,
        (_, 0) => Some(AnchorSet::Tapret(tap())),
        (0, _) => Some(AnchorSet::Opret(opr())),
        _ => Some(AnchorSet::Double { tapret: tap(), opret: opr() }),
    }
}
fn msg(m: u32, tree: u32, c: u32) -> [u8; 32] { fx::b32(300 + tree * 20 + m * 10 + c) }

fn ids(t: u32, o: u32) -> BTreeSet<[u8; 32]> {
    let mut v = BTreeSet::new();
    for c in 0..3 {
        if t >> c & 1 == 1 {
            v.insert(msg(1, 0, c));
        }
        if o >> c & 1 == 1 {
            v.insert(msg(0, 0, c));
        }
    }
    v
}

fn check_set(a: &AnchorSet, t: u32, o: u32) {
    post!(a.has_tapret() == (t != 0), "anchor set: tapret presence");
    post!(a.has_opret() == (o != 0), "anchor set: opret presence");
    let got: Vec<_> = a.known_bundle_ids().map(|b| b.to_byte_array()).collect();
    post!(got.len() == ids(t, o).len(), "anchor set: every revealed bundle once");
    post!(
        got.into_iter().collect::<BTreeSet<_>>() == ids(t, o),
        "anchor set: exactly the bundles revealed by its anchors"
    );
}

fn anchor_set<S: Src>(s: &mut S) {
    let (t1, o1) = (s.below(8), s.below(8));
    let (t2, o2) = (s.below(8), s.below(8));
    let foreign = s.below(3);
    s.assume(t1 | o1 != 0 && t2 | o2 != 0);
    let a = anchors(t1, o1, 0, 0).unwrap();
    check_set(&a, t1, o1);
    let (ft, fo) = ((foreign == 1) as u32, (foreign == 2) as u32);
    let b = anchors(t2, o2, ft, fo).unwrap();
    // parts of one method can be joined only when made of the same tree
    let clash = (ft == 1 && t1 != 0 && t2 != 0) || (fo == 1 && o1 != 0 && o2 != 0);
    s.assume(clash || (ft == 0 && fo == 0));
    reach!(s, clash, "different commitments");
    reach!(s, !clash && o1 == 0 && t2 == 0, "tapret and opret");
    reach!(s, !clash && o1 != 0 && t1 != 0 && t2 == 0, "double and opret");
    // the stored witness as a whole behaves alike
    let w = SealWitness::new(XChain::Bitcoin(PubWitness::with(fx::tx(1))), a.clone());
    post!(w.witness_id() == XChain::Bitcoin(fx::tx(1).txid()), "seal witness: identifier");
    match a.merge_reveal(b) {
        Ok(r) => {
            post!(!clash, "merge: anchors of different commitments are refused");
            check_set(&r, t1 | t2, o1 | o2);
            let want = anchors(t1 | t2, o1 | o2, 0, 0).unwrap();
            post!(same_root(&r, &want), "merge: each method keeps its own commitment");
        }
        Err(_) => post!(clash, "merge: matching anchors are accepted"),
    }
}

fn same_root(a: &AnchorSet, b: &AnchorSet) -> bool {
    use commit_verify::CommitId;
    let f = |x: &AnchorSet| match x {
        AnchorSet::Tapret(t) => (Some((t.mpc_proof.commit_id(), t.dbc_proof.clone())), None),
        AnchorSet::Opret(o) => (None, Some((o.mpc_proof.commit_id(), o.dbc_proof))),
        AnchorSet::Double { tapret: t, opret: o } => (
            Some((t.mpc_proof.commit_id(), t.dbc_proof.clone())),
            Some((o.mpc_proof.commit_id(), o.dbc_proof)),
        ),
    };
    f(a) == f(b)
}

/// A consignment of up to three witnesses, asked as the validator asks it.
fn indexed<S: Src>(s: &mut S) {
    let mut ws = vec![];
    let mut parts: Vec<(u32, u32, rgbcore::XWitnessId)> = vec![];
    let n = s.below(4);
    for i in 0..n {
        let m = s.below(2);
        let cb = |m: u32, p: u32| ClientBundle::new(fx::mpc_proof(10 * m + p), dbc(m), bun(m, p));
        let liquid = s.below(2) == 1;
        let wid = chain(liquid, fx::tx(i).txid());
        let mut w = WitnessBundle::with(chain(liquid, PubWitness::with(fx::tx(i))), cb(m, 2 * i + 1));
        parts.push((m, 2 * i + 1, wid));
        if s.bool() {
            w = w.into_double(cb(1 - m, 2 * i + 2)).unwrap();
            parts.push((1 - m, 2 * i + 2, wid));
        }
        ws.push(w);
    }
    let g = fx::genesis(1, Default::default());
    let ext: Vec<_> =
        (0..s.below(3)).map(|i| fx::extension(g.contract_id(), i as u64, Default::default())).collect();
    let c = fx::consignment::<true>(g, &[], ws, ext.clone());
    let idx = IndexedConsignment::new(&c);
    reach!(s, parts.len() > 3, "several witnesses with two bundles");
    reach!(s, ext.len() > 1, "several extensions");
    let mut ids: Vec<_> = parts.iter().map(|(m, p, _)| bun(*m, *p).bundle_id()).collect();
    ids.sort();
    let mut got: Vec<_> = idx.bundle_ids().collect();
    got.sort();
    post!(got == ids, "indexed: every bundle once");
    for (m, p, wid) in &parts {
        let b = bun(*m, *p);
        post!(idx.bundle(b.bundle_id()).map(fx::dbg) == Some(fx::dbg(&b)), "indexed: bundle by its identifier");
        let a = idx.anchor(b.bundle_id());
        post!(a.as_ref().map(|a| a.0) == Some(*wid), "indexed: bundle with its witness");
        let a = a.unwrap().1;
        post!(
            a.mpc_proof == fx::mpc_proof(10 * m + p) && a.dbc_proof == dbc(*m),
            "indexed: bundle with its own anchor"
        );
        let id = tr(*p).id();
        post!(
            matches!(idx.operation(id), Some(OpRef::Transition(t)) if *t == tr(*p)),
            "indexed: transition by its identifier"
        );
        post!(idx.op_witness_id(id) == Some(*wid), "indexed: transition with its witness");
        let w = idx.pub_witness(*wid).map(|w| w.to_witness_id());
        post!(w == Some(*wid), "indexed: witness by its identifier");
    }
    for e in &ext {
        post!(
            matches!(idx.operation(e.id()), Some(OpRef::Extension(x)) if x == e),
            "indexed: extension by its identifier"
        );
        post!(idx.op_witness_id(e.id()).is_none(), "indexed: extensions have no witness");
    }
    let g = c.genesis.id();
    post!(matches!(idx.operation(g), Some(OpRef::Genesis(x)) if *x == c.genesis), "indexed: genesis");
    post!(idx.op_witness_id(g).is_none(), "indexed: the genesis has no witness");
    let t = tr(9);
    post!(idx.operation(t.id()).is_none() && idx.op_witness_id(t.id()).is_none(), "indexed: no unknown operation");
    post!(idx.bundle(bun(0, 9).bundle_id()).is_none(), "indexed: no unknown bundle");
    post!(idx.anchor(bun(0, 9).bundle_id()).is_none(), "indexed: no unknown anchor");
    for (_, _, wid) in &parts {
        let other = match *wid {
            XChain::Bitcoin(t) => XChain::Liquid(t),
            XChain::Liquid(t) => XChain::Bitcoin(t),
            _ => continue,
        };
        post!(idx.pub_witness(other).is_none(), "indexed: no witness of another layer");
    }
}

pub const PROPERTY: Property = Property {
    id: "C17",
    module: "c17",
    contracts: &[
        Contract {
            name: "pairing",
            f: pairing,
            fns: &[
                "WitnessBundle::with", "WitnessBundle::into_double", "WitnessBundle::witness_id",
                "WitnessBundle::anchored_bundles", "WitnessBundle::known_transitions",
                "AnchoredBundles::from", "AnchoredBundles::iter", "AnchoredBundles::into_iter",
                "AnchoredBundles::bundles", "AnchoredBundles::into_bundles", "ClientBundle::new",
                "ClientBundle::bundle_id",
            ],
            kani: Kani::No,
            native: "all method combinations of up to three parts, both chains (exhaustive)",
            reach: &["opret, then tapret", "tapret, then opret", "same method"],
        },
        Contract {
            name: "reveal",
            f: reveal,
            fns: &["ClientBundle::reveal_transition"],
            kani: Kani::No,
            native: "bundles of up to 3 transitions, all known subsets and picks (exhaustive)",
            reach: &["new transition", "unrelated transition"],
        },
        Contract {
            name: "anchor_set",
            f: anchor_set,
            fns: &[
                "AnchorSet::merge_reveal", "AnchorSet::known_bundle_ids", "AnchorSet::has_tapret",
                "AnchorSet::has_opret", "SealWitness::new", "SealWitness::witness_id",
            ],
            kani: Kani::No,
            native: "anchor sets over trees of 3 contracts, all pairs of revealed subsets per method",
            reach: &["different commitments", "tapret and opret", "double and opret"],
        },
        Contract {
            name: "indexed",
            f: indexed,
            fns: &[
                "IndexedConsignment::new", "IndexedConsignment::operation", "IndexedConsignment::bundle",
                "IndexedConsignment::anchor", "IndexedConsignment::op_witness_id",
                "IndexedConsignment::bundle_ids", "IndexedConsignment::pub_witness",
            ],
            kani: Kani::No,
            native: "consignments of up to 3 witnesses with 1 or 2 bundles on either layer and up to 2 extensions",
            reach: &["several witnesses with two bundles", "several extensions"],
        },
    ],
    findings: &[],
};
