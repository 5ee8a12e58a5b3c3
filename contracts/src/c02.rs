//! C02: splitting an amount in whole and fractional units loses nothing.

use rgbstd::invoice::{Amount, CoinAmount};

use crate::c01::{POW10, PRECISIONS};
use crate::registry::{Contract, Kani, Property};
use crate::src::Src;
use crate::{post, reach};

fn split<S: Src>(s: &mut S) {
    let p = s.below(19) as usize;
    let v = s.u64();
    let (prec, m) = (PRECISIONS[p], POW10[p]);
    let a = Amount::from(v);
    let (q, r) = (v / m, v % m);
    reach!(s, r > 0 || p == 0, "fraction");
    reach!(s, q > 0, "whole");
    post!(a.floor(prec) == q, "floor: whole units");
    post!(a.rem(prec) == r, "rem: fractional units");
    let (int, fract) = a.split(prec);
    post!(int == q && fract == r, "split: whole and fractional units");
    let c = CoinAmount::new(a, prec);
    post!(c.int() == q && c.fract() == r, "coin amount: whole and fractional units");
    post!(c.precision() == prec, "coin amount: precision kept");
}

fn ceil<S: Src>(s: &mut S) {
    let p = s.below(19) as usize;
    let v = s.u64();
    let (prec, m) = (PRECISIONS[p], POW10[p]);
    let (q, r) = (v / m, v % m);
    reach!(s, r > 0 || p == 0, "fraction");
    reach!(s, r == 0 && v > 0, "whole");
    let up = Amount::from(v).ceil(prec);
    post!(up == if r > 0 { q + 1 } else { q }, "ceil: smallest number of whole units not below");
}

fn round<S: Src>(s: &mut S) {
    let p = s.below(19) as usize;
    let v = s.u64();
    let (prec, m) = (PRECISIONS[p], POW10[p]);
    let (q, r) = (v / m, v % m);
    reach!(s, (r > 0 && r < m / 2) || p < 1, "down");
    reach!(s, r > m / 2 || p < 1, "up");
    reach!(s, (m > 1 && r == m / 2) || p < 1, "half");
    let near = Amount::from(v).round(prec);
    post!(near == if r >= m - r { q + 1 } else { q }, "round: nearest whole, half up");
}

fn with<S: Src>(s: &mut S) {
    let p = s.below(19) as usize;
    let (int, fract) = (s.u64(), s.u64());
    let (prec, m) = (PRECISIONS[p], POW10[p]);
    reach!(s, fract >= m, "too many digits");
    reach!(s, fract < m, "valid");
    match CoinAmount::with(int, fract, prec) {
        Ok(c) => {
            post!(fract < m, "with: fraction shorter than one unit");
            post!(c.int() == int && c.fract() == fract && c.precision() == prec, "with: exact");
        }
        Err(_) => post!(fract >= m, "with: every valid fraction accepted"),
    }
}

#[cfg(kani)]
mod k {
    use crate::{proof, proof_split19};
    proof_split19!([kani::unwind(2), kani::solver(z3)] split);
    proof_split19!([kani::unwind(2), kani::solver(z3)] ceil);
    proof_split19!([kani::unwind(2), kani::solver(z3)] round);
    proof!([kani::unwind(20)] with = super::with []);
}

pub const PROPERTY: Property = Property {
    id: "C02",
    module: "c02",
    contracts: &[
        Contract {
            name: "split",
            f: split,
            fns: &["Amount::floor", "Amount::rem", "Amount::split", "CoinAmount::new"],
            kani: Kani::Split(19),
            native: "19 precisions, 64-bit values: boundary table and seeded sample",
            reach: &["fraction", "whole"],
        },
        Contract {
            name: "ceil",
            f: ceil,
            fns: &["Amount::ceil"],
            kani: Kani::Split(19),
            native: "19 precisions, 64-bit values: boundary table and seeded sample",
            reach: &["fraction", "whole"],
        },
        Contract {
            name: "round",
            f: round,
            fns: &["Amount::round"],
            kani: Kani::Split(19),
            native: "19 precisions, 64-bit values: boundary table and seeded sample",
            reach: &["up", "down", "half"],
        },
        Contract {
            name: "with",
            f: with,
            fns: &["CoinAmount::with"],
            kani: Kani::Full,
            native: "19 precisions, 64-bit values: boundary table and seeded sample",
            reach: &["too many digits", "valid"],
        },
    ],
    findings: &[],
};
