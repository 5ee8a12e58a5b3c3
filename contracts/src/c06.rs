//! C06: revealing a seal opens exactly the assignments which committed to it.
//# assumes: concealment of seals is injective (hash)
//# assumes: a proof for the toy seal type carries over to all instances of the generic code

use commit_verify::Conceal;
use rgbcore::{Assignments, GraphSeal, Opout, Operation, TypedAssigns, VoidState, XChain};
use rgbstd::containers::{PubWitness, WitnessBundle};
use rgbstd::TypedAssignsExt;

use crate::fx;
use crate::registry::{Contract, Kani, Property};
use crate::src::Src;
use crate::toy::{chain, is_view, shows_seal, view, Toy};
use crate::{post, reach};

/// View kind after the seal of an assignment was revealed.
fn opened(k: u32) -> u32 {
    match k {
        1 => 0,
        3 => 2,
        k => k,
    }
}

fn rights<S: Src>(s: &mut S) {
    let n = s.below(3) as usize;
    let mut ks = [(0u32, XChain::Bitcoin(Toy(0))); 2];
    let mut a = Vec::new();
    for i in 0..n {
        let k = s.below(4);
        let seal = chain(false, Toy(s.u8()));
        ks[i] = (k, seal);
        a.push(view(k, seal, VoidState::default()));
    }
    let target = chain(false, Toy(s.u8()));
    reach!(s, n == 2 && ks[0].1 == target && ks[1].1 == target, "two matches");
    reach!(s, n == 2 && ks[0].1 == target && ks[1].1 != target, "one match");
    let mut a = TypedAssigns::Declarative(amplify::confinement::Confined::try_from(a).unwrap());
    a.reveal_seal(target);
    match &a {
        TypedAssigns::Declarative(v) => {
            post!(v.len() == n, "reveal: no assignment lost or added");
            for i in 0..n {
                let (k, seal) = ks[i];
                let want = if seal == target { opened(k) } else { k };
                post!(
                    is_view(&v[i], want, seal, &VoidState::default()),
                    "reveal: opened exactly when it committed to the seal, state kept"
                );
            }
        }
        _ => post!(false, "reveal: state kind kept"),
    }
}

fn list<S: Src>(s: &mut S) {
    let class = s.below(4);
    let n = s.below(3);
    let target = (s.below(2) == 1, s.below(3));
    let mk = |(l, i): (bool, u32)| chain(l, fx::graph_seal(0, i));
    let (mut a, mut want, mut shown) = (vec![], vec![], vec![]);
    for i in 0..n {
        let k = s.below(4);
        let id = (s.below(2) == 1, s.below(3));
        let seal = mk(id);
        a.push((k, seal, i));
        want.push((if id == target { opened(k) } else { k }, seal, i));
        if shows_seal(k) {
            shown.push(seal);
        }
    }
    reach!(s, class == 1 && n == 2 && a[0].1 == a[1].1 && a[0].1 == mk(target), "two matching amounts");
    reach!(s, class == 3 && n > 0 && a[0].0 == 1 && a[0].1 == mk(target), "attachment");
    let mut t = fx::typed(class, &a);
    post!(t.filter_revealed_seals() == shown, "listing: exactly the revealed seals, in order");
    t.reveal_seal(mk(target));
    post!(
        fx::dbg(&t) == fx::dbg(&fx::typed(class, &want)),
        "reveal: opened exactly when it committed to the seal, all else kept"
    );
}

/// Assignments of two types and two positions; seal numbers and view kinds drawn.
type Cell = (u32, u32);
fn map(m: u32, cells: &[Vec<Cell>], base: u32) -> Assignments<GraphSeal> {
    fx::assignments(cells.iter().enumerate().filter(|(_, l)| !l.is_empty()).map(|(ty, l)| {
        let items: Vec<_> = l
            .iter()
            .enumerate()
            .map(|(i, (k, n))| (*k, XChain::Bitcoin(fx::graph_seal(m, *n)), base + (ty * 4 + i) as u32))
            .collect();
        (fx::aty(ty as u32 + 1), fx::typed((ty as u32 + base) % 4, &items))
    }))
}

/// The seals: 0 and 1 are candidates for revealing, others stay concealed.
fn draw_cells<S: Src>(s: &mut S) -> Vec<Vec<Cell>> {
    let l = 1 + s.below(2);
    (0..2)
        .map(|ty| (0..if ty == 0 { l } else { 1 }).map(|_| ([3, 1, 0][s.below(3) as usize], s.below(3))).collect())
        .collect()
}

fn open_cells(cells: &[Vec<Cell>], target: u32) -> Vec<Vec<Cell>> {
    cells
        .iter()
        .map(|l| l.iter().map(|(k, n)| (if *n == target { opened(*k) } else { *k }, *n)).collect())
        .collect()
}

fn bundle_of(m: u32, cells: &[Vec<Vec<Cell>>]) -> rgbcore::TransitionBundle {
    let ts: Vec<_> = cells
        .iter()
        .enumerate()
        .map(|(i, c)| {
            let n = i as u32;
            fx::transition(
                fx::contract_id(1),
                n as u64 + 10 * m as u64,
                10,
                &[Opout::new(fx::opid(n), fx::aty(1), 0)],
                map(m, c, n),
            )
        })
        .collect();
    let entries: Vec<_> = ts.iter().enumerate().map(|(i, t)| (i as u32, t.id())).collect();
    fx::bundle(fx::method(m), &entries, ts)
}

/// A witness with one bundle per closing method present in `shape`
/// (0 opret only, 1 tapret only, 2 both).
fn wit(shape: u32, n: u32, o: &[Vec<Vec<Cell>>], t: &[Vec<Vec<Cell>>]) -> WitnessBundle {
    let mut v = vec![];
    if shape != 1 {
        v.push(bundle_of(0, o));
    }
    if shape != 0 {
        v.push(bundle_of(1, t));
    }
    fx::witness_bundle(XChain::Bitcoin(PubWitness::with(fx::tx(n))), v)
}

fn bundle<S: Src>(s: &mut S) {
    let shape = s.below(3);
    let pick = s.below(3);
    let target = s.below(2);
    let (o, t) = (vec![draw_cells(s), draw_cells(s)], vec![draw_cells(s)]);
    reach!(s, shape == 2 && pick == 0, "double, opret");
    reach!(s, shape == 2 && pick == 1, "double, tapret");
    let mut w = wit(shape, 1, &o, &t);
    let id = match pick {
        0 => bundle_of(0, &o).bundle_id(),
        1 => bundle_of(1, &t).bundle_id(),
        _ => rgbcore::BundleId::from(fx::b32(66)),
    };
    let present = (pick == 0 && shape != 1) || (pick == 1 && shape != 0);
    let (m, seal) = if pick == 1 { (1, fx::graph_seal(1, target)) } else { (0, fx::graph_seal(0, target)) };
    let (mut o2, mut t2) = (o.clone(), t.clone());
    if present && m == 0 {
        o2 = o.iter().map(|c| open_cells(c, target)).collect();
    }
    if present && m == 1 {
        t2 = t.iter().map(|c| open_cells(c, target)).collect();
    }
    let found = w.reveal_seal(id, XChain::Bitcoin(seal));
    post!(found == present, "bundle: reports whether the bundle is there");
    post!(
        fx::dbg(&w) == fx::dbg(&wit(shape, 1, &o2, &t2)),
        "bundle: exactly the matching assignments of that bundle are opened"
    );
}

fn consignment<S: Src>(s: &mut S) {
    let shape = s.below(3);
    let (o, t) = (vec![draw_cells(s)], vec![draw_cells(s)]);
    let other = vec![vec![vec![(3, 0), (1, 1)], vec![(1, 0)]]];
    // which seals the wallet knows
    let known = [s.bool(), s.bool()];
    let term_o = s.below(3);
    let term_t = s.below(3);
    let (bo, bt) = (bundle_of(0, &o).bundle_id(), bundle_of(1, &t).bundle_id());
    let mut terms = vec![];
    if term_o < 2 {
        terms.push((bo, XChain::<GraphSeal>::Bitcoin(fx::graph_seal(0, term_o)).conceal()));
    }
    if term_t < 2 {
        terms.push((bt, XChain::<GraphSeal>::Bitcoin(fx::graph_seal(1, term_t)).conceal()));
    }
    reach!(s, shape == 2 && term_o < 2 && term_t < 2 && known[0] && known[1], "both bundles terminal");
    reach!(s, shape == 0 && term_o < 2 && !known[term_o as usize], "unknown seal");
    let mut o2 = o.clone();
    let mut t2 = t.clone();
    if term_o < 2 && known[term_o as usize] {
        o2 = o.iter().map(|c| open_cells(c, term_o)).collect();
    }
    if term_t < 2 && known[term_t as usize] {
        t2 = t.iter().map(|c| open_cells(c, term_t)).collect();
    }
    let wother = || {
        let mut b = bundle_of(0, &other);
        // another bundle with the same seals, not terminal
        b.input_map = fx::input_map(&[(5, *b.known_transitions.keys().next().unwrap())]);
        fx::witness_bundle(XChain::Bitcoin(PubWitness::with(fx::tx(2))), vec![b])
    };
    let mk = |o: &[_], t: &[_]| {
        fx::consignment::<true>(fx::genesis(1, fx::assignments([])), &terms, vec![wit(shape, 1, o, t), wother()], vec![])
    };
    let secrets: Vec<_> = (0..2u32)
        .filter(|i| known[*i as usize])
        .flat_map(|i| (0..2).map(move |m| XChain::<GraphSeal>::Bitcoin(fx::graph_seal(m, i))))
        .map(|x| (x.conceal(), x))
        .collect();
    let before = mk(&o, &t);
    let cid = before.genesis.contract_id();
    let r = before.reveal_terminal_seals::<()>(|secret| {
        Ok(secrets.iter().find(|(c, _)| *c == secret).map(|(_, x)| *x))
    });
    let r = r.unwrap();
    post!(r.genesis.contract_id() == cid, "consignment: contract identifier kept");
    post!(
        fx::dbg(&r) == fx::dbg(&mk(&o2, &t2)),
        "consignment: exactly the terminal assignments with known seals are opened"
    );
    // an error of the wallet lookup is passed on, when it is asked at all
    let r = mk(&o, &t).reveal_terminal_seals::<u8>(|_| Err(7));
    post!(r.is_err() == !terms.is_empty(), "consignment: lookup errors are passed on");
}

#[cfg(kani)]
mod k {
    use rgbcore::{
        ConcealedAttach, ConcealedData, ConcealedValue, RevealedAttach, RevealedData, RevealedValue,
    };

    use super::*;
    use crate::proof_split;

    fn cv(_: &RevealedValue) -> ConcealedValue { unreachable!() }
    fn cd(_: &RevealedData) -> ConcealedData { unreachable!() }
    fn ca(_: &RevealedAttach) -> ConcealedAttach { unreachable!() }

    proof_split!([kani::unwind(34),
        kani::stub(<RevealedValue as Conceal>::conceal, cv),
        kani::stub(<RevealedData as Conceal>::conceal, cd),
        kani::stub(<RevealedAttach as Conceal>::conceal, ca)] rights : 0 1 2);
}

pub const PROPERTY: Property = Property {
    id: "C06",
    module: "c06",
    contracts: &[
        Contract {
            name: "rights",
            f: rights,
            fns: &["TypedAssigns::reveal_seal", "TypedAssigns::filter_revealed_seals"],
            kani: Kani::SplitBounded(3, "lists of at most 2 rights, all views and seals"),
            native: "lists of at most 2 rights, all views, sampled seals",
            reach: &["two matches", "one match"],
        },
        Contract {
            name: "list",
            f: list,
            fns: &["TypedAssigns::reveal_seal", "TypedAssigns::filter_revealed_seals"],
            kani: Kani::No,
            native: "lists of at most 2 assignments of the 4 state kinds, all views, 6 seals (exhaustive)",
            reach: &["two matching amounts", "attachment"],
        },
        Contract {
            name: "bundle",
            f: bundle,
            fns: &["WitnessBundle::reveal_seal", "TypedAssigns::reveal_seal"],
            kani: Kani::No,
            native: "witnesses with opret, tapret or both bundles, 2+1 transitions, up to 3 assignments each",
            reach: &["double, opret", "double, tapret"],
        },
        Contract {
            name: "consignment",
            f: consignment,
            fns: &["Consignment::reveal_terminal_seals"],
            kani: Kani::No,
            native: "consignments of two witnesses, all terminal and known-seal combinations over 2 seals",
            reach: &["both bundles terminal", "unknown seal"],
        },
    ],
    findings: &[],
};
