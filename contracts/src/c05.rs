//! C05: merging two copies of an operation never hides or alters what is known.
//# assumes: concealment of seals and states is injective (hash and Pedersen commitments)
//# assumes: a proof for the toy seal and state types carries over to all instances of the generic code

use commit_verify::Conceal;
use rgbcore::{Genesis, OpId, Operation, Opout, Transition, TypedAssigns, VoidState, XChain};
use rgbstd::containers::{PubWitness, XPubWitness};
use rgbstd::{MergeReveal, MergeRevealError};

use crate::fx;
use crate::registry::{Contract, Kani, Property};
use crate::src::Src;
use crate::toy::{chain, draw_toy, is_view, join, view, Toy};
use crate::{post, reach};

fn assign<S: Src>(s: &mut S) {
    let (k1, k2) = (s.below(4), s.below(4));
    let (seal, state) = draw_toy(s);
    reach!(s, k1 == 1 && k2 == 2, "state and seal views");
    reach!(s, k1 == 3 && k2 == 3, "nothing revealed");
    let r = view(k1, seal, state).merge_reveal(view(k2, seal, state));
    post!(r.is_ok(), "assignment: views of the same data merge");
    if let Ok(r) = r {
        post!(
            is_view(&r, join(k1, k2), seal, &state),
            "assignment: exactly what either view reveals, unaltered"
        );
    }
}

/// Lists of rights over the toy seal.
fn rights<S: Src>(s: &mut S) {
    let n = s.below(3) as usize;
    let mut ks = [(0u32, 0u32, XChain::Bitcoin(Toy(0))); 2];
    let mut a = Vec::new();
    let mut b = Vec::new();
    for i in 0..n {
        let (k1, k2) = (s.below(4), s.below(4));
        let seal = chain(false, Toy(s.u8()));
        ks[i] = (k1, k2, seal);
        a.push(view(k1, seal, VoidState::default()));
        b.push(view(k2, seal, VoidState::default()));
    }
    reach!(s, n == 2, "two assignments");
    let a = TypedAssigns::Declarative(amplify::confinement::Confined::try_from(a).unwrap());
    let b = TypedAssigns::Declarative(amplify::confinement::Confined::try_from(b).unwrap());
    match a.merge_reveal(b) {
        Ok(TypedAssigns::Declarative(v)) => {
            post!(v.len() == n, "list: no assignment lost or added");
            for i in 0..n {
                let (k1, k2, seal) = ks[i];
                post!(
                    is_view(&v[i], join(k1, k2), seal, &VoidState::default()),
                    "list: each position merged with its counterpart"
                );
            }
        }
        _ => post!(false, "list: views of the same list merge"),
    }
}

fn list<S: Src>(s: &mut S) {
    let class = s.below(4);
    let n = s.below(3);
    let (mut a, mut b, mut want) = (vec![], vec![], vec![]);
    for i in 0..n {
        let (k1, k2) = (s.below(4), s.below(4));
        let seal = chain(i == 1, fx::graph_seal(i % 2, i));
        a.push((k1, seal, i));
        b.push((k2, seal, i));
        want.push((join(k1, k2), seal, i));
    }
    reach!(s, class == 1 && n == 2, "two amounts");
    reach!(s, class == 3 && n == 2, "two attachments");
    let r = fx::typed(class, &a).merge_reveal(fx::typed(class, &b));
    post!(
        r.map(|r| fx::dbg(&r)) == Ok(fx::dbg(&fx::typed(class, &want))),
        "list: exactly what either view reveals, at its position"
    );
}

/// Assignments of up to three types, with the views drawn independently.
fn draw_maps<S: Src>(s: &mut S) -> [Vec<(u32, Vec<(u32, u32)>)>; 3] {
    let ntypes = s.below(3);
    let (mut a, mut b, mut w) = (vec![], vec![], vec![]);
    for ty in 0..ntypes {
        let n = 1 + s.below(2);
        let (mut x, mut y, mut z) = (vec![], vec![], vec![]);
        for i in 0..n {
            let (k1, k2) = (s.below(4), s.below(4));
            x.push((k1, i));
            y.push((k2, i));
            z.push((join(k1, k2), i));
        }
        a.push((ty, x));
        b.push((ty, y));
        w.push((ty, z));
    }
    [a, b, w]
}

fn graph_map(m: &[(u32, Vec<(u32, u32)>)]) -> rgbcore::Assignments<rgbcore::GraphSeal> {
    fx::assignments(m.iter().map(|(ty, l)| {
        let items: Vec<_> = l
            .iter()
            .map(|(k, i)| (*k, XChain::Bitcoin(fx::graph_seal(0, ty * 4 + i)), ty * 4 + i))
            .collect();
        (fx::aty(*ty + 1), fx::typed(*ty % 4, &items))
    }))
}
fn genesis_map(m: &[(u32, Vec<(u32, u32)>)]) -> rgbcore::Assignments<rgbcore::GenesisSeal> {
    fx::assignments(m.iter().map(|(ty, l)| {
        let items: Vec<_> = l
            .iter()
            .map(|(k, i)| (*k, XChain::Bitcoin(fx::genesis_seal(0, ty * 4 + i)), ty * 4 + i))
            .collect();
        (fx::aty(*ty + 1), fx::typed((*ty + 2) % 4, &items))
    }))
}

fn operation<S: Src>(s: &mut S) {
    let [a, b, w] = draw_maps(s);
    let which = s.below(3);
    let differ = s.below(2);
    reach!(s, differ == 1, "different operations");
    reach!(s, differ == 0 && a.len() == 2, "same operation");
    let c = fx::contract_id(9);
    // everything but the assignments must be carried over untouched
    let globals = fx::globals(&[(1, vec![vec![1], vec![2]]), (2, vec![vec![3]])]);
    match which {
        0 => {
            let mk = |m: &_, n| {
                let mut g = fx::genesis(n, genesis_map(m));
                g.globals = globals.clone();
                g
            };
            let r = mk(&a, 5).merge_reveal(mk(&b, 5 + differ));
            check_op(r, mk(&w, 5), mk(&a, 5).id() == mk(&b, 5 + differ).id());
        }
        1 => {
            let ins = [Opout::new(fx::opid(1), fx::aty(1), 0), Opout::new(fx::opid(2), fx::aty(2), 3)];
            let mk = |m: &_, n| {
                let mut t = fx::transition(c, n, 10, &ins, graph_map(m));
                t.globals = globals.clone();
                t
            };
            let r = mk(&a, 5).merge_reveal(mk(&b, 5 + differ as u64));
            check_op(r, mk(&w, 5), differ == 0);
        }
        _ => {
            let mk = |m: &_, n| {
                let mut t = fx::extension(c, n, genesis_map(m));
                t.globals = globals.clone();
                t
            };
            let r = mk(&a, 5).merge_reveal(mk(&b, 5 + differ as u64));
            check_op(r, mk(&w, 5), differ == 0);
        }
    }
}

fn check_op<T: Operation + std::fmt::Debug>(r: Result<T, MergeRevealError>, want: T, same: bool) {
    match r {
        Ok(r) => {
            post!(same, "operation: different operations are refused");
            post!(r.id() == want.id(), "operation: identifier unchanged");
            post!(fx::dbg(&r) == fx::dbg(&want), "operation: exactly what either view reveals");
        }
        Err(e) => {
            post!(!same, "operation: views of the same operation merge");
            post!(
                matches!(e, MergeRevealError::OperationMismatch(..)),
                "operation: mismatch is reported as such"
            );
        }
    }
}

/// Bundle of three transitions, of which each side knows a non-empty subset.
fn bundle<S: Src>(s: &mut S) {
    let c = fx::contract_id(9);
    let m = s.below(2);
    let n = 1 + s.below(3);
    let (mut ka, mut kb, mut kw, mut ids) = (vec![], vec![], vec![], vec![]);
    let extra = s.below(2);
    for i in 0..n {
        let (has_a, has_b) = (s.bool(), s.bool());
        // views are varied only where both sides know the transition
        let (k1, k2) = if has_a && has_b { (s.below(4), s.below(4)) } else { (i % 4, i % 4) };
        let mk = |k: u32| {
            let seal = XChain::Bitcoin(fx::graph_seal(m, i));
            let l = fx::typed(2 * (i % 2), &[(k, seal, i)]);
            fx::transition(c, i as u64, 10, &[Opout::new(fx::opid(i), fx::aty(1), 0)], fx::assignments([(fx::aty(1), l)]))
        };
        ids.push(mk(0).id());
        if has_a {
            ka.push(mk(k1));
        }
        if has_b {
            kb.push(mk(k2));
        }
        if has_a || has_b {
            kw.push(mk(join(k1, k2)));
        }
    }
    s.assume(!ka.is_empty() && !kb.is_empty());
    reach!(s, kw.len() > ka.len(), "other side knows more");
    reach!(s, kw.len() > kb.len(), "this side knows more");
    // a transition may close over several inputs
    let mut entries: Vec<_> = ids.iter().enumerate().map(|(i, id)| (i as u32, *id)).collect();
    if extra == 1 {
        entries.push((n, ids[0]));
    }
    let (a, b, w) = (
        fx::bundle(fx::method(m), &entries, ka),
        fx::bundle(fx::method(m), &entries, kb),
        fx::bundle(fx::method(m), &entries, kw),
    );
    match a.merge_reveal(b) {
        Ok(r) => {
            post!(r.bundle_id() == w.bundle_id(), "bundle: identifier unchanged");
            post!(
                r.known_transitions.keys().eq(w.known_transitions.keys()),
                "bundle: every transition known to either side is kept"
            );
            post!(fx::dbg(&r) == fx::dbg(&w), "bundle: exactly what either side reveals");
        }
        Err(_) => post!(false, "bundle: views of the same bundle merge"),
    }
}

fn witness<S: Src>(s: &mut S) {
    let (l1, l2) = (s.below(2) == 1, s.below(2) == 1);
    let (k1, k2) = (s.below(2), s.below(2));
    let (n1, n2) = (s.below(3), s.below(3));
    let mk = |l, k, n| -> XPubWitness {
        chain(l, if k == 0 { PubWitness::new(fx::tx(n).txid()) } else { PubWitness::with(fx::tx(n)) })
    };
    let (a, b) = (mk(l1, k1, n1), mk(l2, k2, n2));
    reach!(s, k1 == 1 && k2 == 0 && n1 == n2 && l1 == l2, "transaction and its id");
    reach!(s, l1 != l2, "different chains");
    let same = l1 == l2 && n1 == n2;
    match a.clone().merge_reveal(b.clone()) {
        Ok(r) => {
            post!(same, "witness: different witnesses are refused");
            post!(
                fx::dbg(&r) == fx::dbg(&mk(l1, k1.max(k2), n1)),
                "witness: the transaction is kept if either side has it"
            );
        }
        Err(e) => {
            post!(!same, "witness: views of the same witness merge");
            post!(
                if l1 != l2 {
                    matches!(e, MergeRevealError::ChainMismatch { .. })
                } else {
                    matches!(e, MergeRevealError::TxidMismatch(..))
                },
                "witness: mismatch is reported as such"
            );
        }
    }
}

#[allow(unused)]
fn _types(_: Genesis, _: Transition, _: OpId) {}

#[cfg(kani)]
mod k {
    use rgbcore::{
        ConcealedAttach, ConcealedData, ConcealedValue, RevealedAttach, RevealedData, RevealedValue,
    };

    use super::*;
    use crate::{proof, proof_split};

    fn cv(_: &RevealedValue) -> ConcealedValue { unreachable!() }
    fn cd(_: &RevealedData) -> ConcealedData { unreachable!() }
    fn ca(_: &RevealedAttach) -> ConcealedAttach { unreachable!() }

    proof!([kani::unwind(34)] assign = super::assign []);
    // the other state kinds are not constructed here; their concealment runs
    // hash code the verifier cannot compile
    proof_split!([kani::unwind(34),
        kani::stub(<RevealedValue as Conceal>::conceal, cv),
        kani::stub(<RevealedData as Conceal>::conceal, cd),
        kani::stub(<RevealedAttach as Conceal>::conceal, ca)] rights : 0 1 2);
}
#[cfg(not(kani))]
#[allow(unused)]
use Conceal as _;

pub const PROPERTY: Property = Property {
    id: "C05",
    module: "c05",
    contracts: &[
        Contract {
            name: "assign",
            f: assign,
            fns: &["<Assign as MergeReveal>::merge_reveal"],
            kani: Kani::Full,
            native: "all 16 pairs of views, sampled seals and states",
            reach: &["state and seal views", "nothing revealed"],
        },
        Contract {
            name: "rights",
            f: rights,
            fns: &["<TypedAssigns as MergeReveal>::merge_reveal"],
            kani: Kani::SplitBounded(3, "lists of at most 2 rights, all pairs of views, all seals"),
            native: "lists of at most 2 rights, all pairs of views",
            reach: &["two assignments"],
        },
        Contract {
            name: "list",
            f: list,
            fns: &["<TypedAssigns as MergeReveal>::merge_reveal"],
            kani: Kani::No,
            native: "lists of at most 2 assignments of each of the 4 state kinds, all pairs of views (exhaustive)",
            reach: &["two amounts", "two attachments"],
        },
        Contract {
            name: "operation",
            f: operation,
            fns: &[
                "<Assignments as MergeReveal>::merge_reveal",
                "<Genesis as MergeReveal>::merge_reveal",
                "<Transition as MergeReveal>::merge_reveal",
                "<Extension as MergeReveal>::merge_reveal",
            ],
            kani: Kani::No,
            native: "at most 2 assignment types of at most 2 assignments, all pairs of views, same and different operations",
            reach: &["different operations", "same operation"],
        },
        Contract {
            name: "bundle",
            f: bundle,
            fns: &["<TransitionBundle as MergeReveal>::merge_reveal"],
            kani: Kani::No,
            native: "bundles of at most 3 transitions, all subsets known to each side, all pairs of views",
            reach: &["other side knows more", "this side knows more"],
        },
        Contract {
            name: "witness",
            f: witness,
            fns: &["<XPubWitness as MergeReveal>::merge_reveal", "PubWitness::merge_reveal"],
            kani: Kani::No,
            native: "all pairs over 2 chains, 3 transactions, with and without the transaction (exhaustive)",
            reach: &["transaction and its id", "different chains"],
        },
    ],
    findings: &[],
};
