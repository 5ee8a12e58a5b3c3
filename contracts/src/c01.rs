//! C01: amount arithmetic is exact, refuses or saturates; it never wraps.

use rgbstd::invoice::{Amount, OwnedFraction, Precision};
use rgbstd::{BlindingFactor, FungibleState, RevealedValue};

use crate::registry::{Contract, Kani, Property};
use crate::src::Src;
use crate::{post, reach};

pub const PRECISIONS: [Precision; 19] = [
    Precision::Indivisible,
    Precision::Deci,
    Precision::Centi,
    Precision::Milli,
    Precision::DeciMilli,
    Precision::CentiMilli,
    Precision::Micro,
    Precision::DeciMicro,
    Precision::CentiMicro,
    Precision::Nano,
    Precision::DeciNano,
    Precision::CentiNano,
    Precision::Pico,
    Precision::DeciPico,
    Precision::CentiPico,
    Precision::Femto,
    Precision::DeciFemto,
    Precision::CentiFemto,
    Precision::Atto,
];

/// 10^n for n < 20, stated independently of the code under contract.
pub const POW10: [u64; 19] = [
    1,
    10,
    100,
    1_000,
    10_000,
    100_000,
    1_000_000,
    10_000_000,
    100_000_000,
    1_000_000_000,
    10_000_000_000,
    100_000_000_000,
    1_000_000_000_000,
    10_000_000_000_000,
    100_000_000_000_000,
    1_000_000_000_000_000,
    10_000_000_000_000_000,
    100_000_000_000_000_000,
    1_000_000_000_000_000_000,
];

const MAX: u128 = u64::MAX as u128;

fn add<S: Src>(s: &mut S) {
    let (a, b) = (s.u64(), s.u64());
    let (x, y) = (Amount::from(a), Amount::from(b));
    let sum = a as u128 + b as u128;
    reach!(s, sum > MAX, "overflow");
    reach!(s, sum <= MAX, "fits");
    let r = x.checked_add(y);
    post!(r.is_some() == (sum <= MAX), "checked_add: refuses exactly on overflow");
    if let Some(r) = r {
        post!(r.value() as u128 == sum, "checked_add: exact");
    }
    let r = x.saturating_add(y).value() as u128;
    post!(r == if sum > MAX { MAX } else { sum }, "saturating_add: exact or maximum");
    let mut z = x;
    z.saturating_add_assign(y);
    post!(z.value() as u128 == r, "saturating_add_assign: as saturating_add");
    let mut z = x;
    let ok = z.checked_add_assign(y).is_some();
    post!(ok == (sum <= MAX), "checked_add_assign: refuses exactly on overflow");
    post!(
        z.value() as u128 == if ok { sum } else { a as u128 },
        "checked_add_assign: exact, or unchanged when refused"
    );
    if sum <= MAX {
        post!((x + y).value() as u128 == sum, "add: exact");
        let mut z = x;
        z += y;
        post!(z.value() as u128 == sum, "add_assign: exact");
    }
}

fn sub<S: Src>(s: &mut S) {
    let (a, b) = (s.u64(), s.u64());
    let (x, y) = (Amount::from(a), Amount::from(b));
    reach!(s, a < b, "underflow");
    reach!(s, a >= b, "fits");
    let diff = a as i128 - b as i128;
    let r = x.checked_sub(y);
    post!(r.is_some() == (diff >= 0), "checked_sub: refuses exactly on underflow");
    if let Some(r) = r {
        post!(r.value() as i128 == diff, "checked_sub: exact");
    }
    let r = x.saturating_sub(y).value() as i128;
    post!(r == if diff < 0 { 0 } else { diff }, "saturating_sub: exact or zero");
    let mut z = x;
    z.saturating_sub_assign(y);
    post!(z.value() as i128 == r, "saturating_sub_assign: as saturating_sub");
    let mut z = x;
    let ok = z.checked_sub_assign(y).is_some();
    post!(ok == (diff >= 0), "checked_sub_assign: refuses exactly on underflow");
    post!(
        z.value() as i128 == if ok { diff } else { a as i128 },
        "checked_sub_assign: exact, or unchanged when refused"
    );
    if diff >= 0 {
        post!((x - y).value() as i128 == diff, "sub: exact");
        let mut z = x;
        z -= y;
        post!(z.value() as i128 == diff, "sub_assign: exact");
    }
}

/// Sum over any iterator is a fold; the contract on the fold step (`add`) plus
/// this contract on short sequences and on an arbitrary prefix sum.
fn sum<S: Src>(s: &mut S) {
    let (a, b, c) = (s.u64(), s.u64(), s.u64());
    let n = s.below(4) as usize;
    let vals = [a, b, c];
    let exact: u128 = vals[..n].iter().map(|v| *v as u128).sum();
    let want = if exact > MAX { u64::MAX } else { exact as u64 };
    reach!(s, exact > MAX, "overflow");
    reach!(s, n == 3 && exact < MAX, "fits");
    let got: Amount = vals[..n].iter().copied().sum();
    post!(got.value() == want, "sum of integers: exact or maximum");
    let got: Amount = vals[..n].iter().map(|v| Amount::from(*v)).sum();
    post!(got.value() == want, "sum of amounts: exact or maximum");
}

fn convert<S: Src>(s: &mut S) {
    let p = s.below(19) as usize;
    let a = s.u64();
    let prec = PRECISIONS[p];
    let m = POW10[p];
    // a * m fits in 64 bits exactly when a does not exceed the integer quotient
    let fits = a <= u64::MAX / m;
    let exact = a.wrapping_mul(m);
    reach!(s, fits && a > 1, "fits");
    reach!(s, !fits || p == 0, "overflow");
    let r = prec.checked_convert(a);
    post!(r.is_some() == fits, "checked_convert: refuses exactly on overflow");
    if let Some(r) = r {
        post!(r.value() == exact, "checked_convert: exact");
    }
    let w = Amount::with_precision_checked(a, prec);
    post!(w == r, "with_precision_checked: as checked_convert");
    let sat = prec.saturating_convert(a).value();
    post!(sat == if fits { exact } else { u64::MAX }, "saturating_convert: exact or maximum");
    if fits {
        post!(prec.unchecked_convert(a).value() == exact, "unchecked_convert: exact");
        post!(Amount::with_precision(a, prec).value() == exact, "with_precision: exact");
    }
}

fn scale<S: Src>(s: &mut S) {
    let p = s.below(19) as usize;
    let prec = PRECISIONS[p];
    reach!(s, p == 18, "smallest unit");
    post!(prec.decimals() as usize == p, "decimals: number of fractional digits");
    post!(prec.multiplier() == POW10[p], "multiplier: power of ten");
    post!(u8::from(prec) as usize == p, "precision to u8");
    post!(u16::from(prec) as usize == p, "precision to u16");
    post!(u32::from(prec) as usize == p, "precision to u32");
    post!(u64::from(prec) as usize == p, "precision to u64");
    post!(Precision::default() == Precision::CentiMicro, "default precision is eight digits");
}

fn scale_decode<S: Src>(s: &mut S) {
    let b = s.below(256) as u8;
    reach!(s, b > 18, "unknown precision");
    match Precision::try_from(b) {
        Ok(p) => post!(b <= 18 && p == PRECISIONS[b as usize], "precision from u8: exact"),
        Err(_) => post!(b > 18, "precision from u8: total on 0..=18"),
    }
}

fn from<S: Src>(s: &mut S) {
    let (a, b, c, d) = (s.u64(), s.u32(), s.u16(), s.u8());
    reach!(s, a > u32::MAX as u64, "wide");
    post!(Amount::from(a).value() == a, "amount from u64");
    post!(Amount::from(b).value() == b as u64, "amount from u32");
    post!(Amount::from(c).value() == c as u64, "amount from u16");
    post!(Amount::from(d).value() == d as u64, "amount from u8");
    post!(Amount::from(FungibleState::Bits64(a)).value() == a, "amount from state");
    post!(FungibleState::from(Amount::from(a)) == FungibleState::Bits64(a), "state from amount");
    post!(Amount::ZERO.value() == 0 && Amount::default().value() == 0, "zero");
    let e = s.u64();
    post!(Amount::from(a).cmp(&Amount::from(e)) == a.cmp(&e), "order of amounts");
    post!((Amount::from(a) == Amount::from(e)) == (a == e), "equality of amounts");
}

fn from_revealed<S: Src>(s: &mut S) {
    let a = s.u64();
    reach!(s, a > u32::MAX as u64, "wide");
    let v = RevealedValue::with_blinding(
        FungibleState::Bits64(a),
        BlindingFactor::try_from(amplify::Bytes32::from([1u8; 32])).expect("scalar"),
        amplify::ByteArray::from_byte_array([2u8; 32]),
    );
    post!(Amount::from(v).value() == a, "amount from revealed state");
}

/// Fractions of a token follow the same rules as amounts.
fn fraction<S: Src>(s: &mut S) {
    let (a, b) = (s.u64(), s.u64());
    let (x, y) = (OwnedFraction::from(a), OwnedFraction::from(b));
    let (sum, diff) = (a as u128 + b as u128, a as i128 - b as i128);
    reach!(s, sum > MAX, "overflow");
    reach!(s, diff < 0, "underflow");
    reach!(s, sum <= MAX && diff > 0, "fits");
    post!(x.value() == a && OwnedFraction::ZERO.value() == 0, "fraction: keeps the number");
    post!(x.checked_add(y).map(|r| r.value() as u128) == if sum <= MAX { Some(sum) } else { None }, "fraction: checked_add is exact or refused");
    post!(x.checked_sub(y).map(|r| r.value() as i128) == if diff >= 0 { Some(diff) } else { None }, "fraction: checked_sub is exact or refused");
    let (add, sub) = (if sum > MAX { MAX } else { sum }, if diff < 0 { 0 } else { diff });
    post!(x.saturating_add(y).value() as u128 == add, "fraction: saturating_add is exact or the maximum");
    post!(x.saturating_sub(y).value() as i128 == sub, "fraction: saturating_sub is exact or zero");
    let mut z = x;
    z.saturating_add_assign(y);
    post!(z.value() as u128 == add, "fraction: saturating_add_assign is exact or the maximum");
    let mut z = x;
    z.saturating_sub_assign(y);
    post!(z.value() as i128 == sub, "fraction: saturating_sub_assign is exact or zero");
    let mut z = x;
    let ok = z.checked_add_assign(y).is_some();
    post!(ok == (sum <= MAX) && z.value() as u128 == if ok { sum } else { a as u128 }, "fraction: checked_add_assign is exact, or changes nothing");
    let mut z = x;
    let ok = z.checked_sub_assign(y).is_some();
    post!(ok == (diff >= 0) && z.value() as i128 == if ok { diff } else { a as i128 }, "fraction: checked_sub_assign is exact, or changes nothing");
}

#[cfg(kani)]
mod k {
    use crate::{proof, proof_split19};
    proof!([kani::unwind(2)] add = super::add []);
    proof!([kani::unwind(2)] sub = super::sub []);
    proof!([kani::unwind(2)] fraction = super::fraction []);
    proof!([kani::unwind(5)] sum = super::sum []);
    proof!([kani::unwind(2)] scale = super::scale []);
    proof!([kani::unwind(2)] from = super::from []);
    proof_split19!([kani::unwind(2), kani::solver(z3)] convert);
}

pub const PROPERTY: Property = Property {
    id: "C01",
    module: "c01",
    contracts: &[
        Contract {
            name: "add",
            f: add,
            fns: &[
                "Amount::checked_add",
                "Amount::saturating_add",
                "Amount::checked_add_assign",
                "Amount::saturating_add_assign",
                "Amount::add",
                "Amount::add_assign",
            ],
            kani: Kani::Full,
            native: "pairs of 64-bit values: boundary table and seeded sample",
            reach: &["overflow", "fits"],
        },
        Contract {
            name: "sub",
            f: sub,
            fns: &[
                "Amount::checked_sub",
                "Amount::saturating_sub",
                "Amount::checked_sub_assign",
                "Amount::saturating_sub_assign",
                "Amount::sub",
                "Amount::sub_assign",
            ],
            kani: Kani::Full,
            native: "pairs of 64-bit values: boundary table and seeded sample",
            reach: &["underflow", "fits"],
        },
        Contract {
            name: "fraction",
            f: fraction,
            fns: &["OwnedFraction: checked, saturating and assigning addition and subtraction", "OwnedFraction::from(u64)", "OwnedFraction::value"],
            kani: Kani::Full,
            native: "pairs of 64-bit values: boundary table and seeded sample",
            reach: &["overflow", "underflow", "fits"],
        },
        Contract {
            name: "sum",
            f: sum,
            fns: &["<Amount as Sum<u64>>::sum", "<Amount as Sum<Amount>>::sum"],
            kani: Kani::Bounded("sequences of at most 3 amounts, any values"),
            native: "sequences of at most 3 amounts: boundary table and seeded sample",
            reach: &["overflow", "fits"],
        },
        Contract {
            name: "convert",
            f: convert,
            fns: &[
                "Precision::checked_convert",
                "Precision::saturating_convert",
                "Precision::unchecked_convert",
                "Amount::with_precision",
                "Amount::with_precision_checked",
            ],
            kani: Kani::Split(19),
            native: "19 precisions, 64-bit values: boundary table and seeded sample",
            reach: &["overflow", "fits"],
        },
        Contract {
            name: "scale",
            f: scale,
            fns: &["Precision::decimals", "Precision::multiplier", "Precision into u8/u16/u32/u64"],
            kani: Kani::Full,
            native: "all 19 precisions (complete)",
            reach: &["smallest unit"],
        },
        Contract {
            name: "scale_decode",
            f: scale_decode,
            fns: &["Precision::try_from(u8)"],
            kani: Kani::No,
            native: "all 256 bytes (complete)",
            reach: &["unknown precision"],
        },
        Contract {
            name: "from",
            f: from,
            fns: &[
                "Amount::from(u64/u32/u16/u8)",
                "Amount::from(FungibleState)",
                "FungibleState::from(Amount)",
                "Amount::value",
                "Amount::cmp",
                "Amount::eq",
            ],
            kani: Kani::Full,
            native: "boundary table and seeded sample",
            reach: &["wide"],
        },
        Contract {
            name: "from_revealed",
            f: from_revealed,
            fns: &["Amount::from(RevealedValue)"],
            kani: Kani::No,
            native: "boundary table and seeded sample",
            reach: &["wide"],
        },
    ],
    findings: &[],
};
