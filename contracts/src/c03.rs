//! C03: text forms of amounts and token allocations read back unchanged.

use std::fmt::{self, Write};
use std::str::FromStr;

use rgbcore::{DataState, RevealedData};
use rgbstd::invoice::{
    Allocation, Amount, CoinAmount, NonFungible, OwnedFraction, TokenIndex,
};

use crate::c01::{POW10, PRECISIONS};
use crate::registry::{Contract, Kani, Property};
use crate::src::Src;
use crate::{post, reach};

/// Text of bounded length without allocation.
#[derive(Clone, Copy)]
pub struct Buf<const N: usize> {
    b: [u8; N],
    n: usize,
}
impl<const N: usize> Buf<N> {
    pub fn new() -> Self { Buf { b: [0; N], n: 0 } }
    pub fn push(&mut self, c: u8) {
        self.b[self.n] = c;
        self.n += 1;
    }
    pub fn str(&self) -> &str { unsafe { std::str::from_utf8_unchecked(&self.b[..self.n]) } }
}
impl<const N: usize> Write for Buf<N> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for c in s.as_bytes() {
            if self.n == N {
                return Err(fmt::Error);
            }
            self.push(*c);
        }
        Ok(())
    }
}

const ALPHABET: &[u8; 32] = b"abcdefghkmnABCDEFGHKMNPQRSTVWXYZ";

/// Bytes, lowest first, without the highest zero bytes; five bits per letter.
fn amount_oracle(v: u64) -> Buf<13> {
    let mut len = 1;
    while len < 8 && v >> (8 * len) != 0 {
        len += 1;
    }
    amount_letters(v, len)
}
fn amount_letters(v: u64, len: usize) -> Buf<13> {
    // The bits of the byte sequence as one number of 8 * len bits, padded to a
    // multiple of five
    let mut bits: u128 = 0;
    for i in 0..len {
        bits = bits << 8 | (v >> (8 * i) & 0xff) as u128;
    }
    let letters = (8 * len + 4) / 5;
    bits <<= 5 * letters - 8 * len;
    let mut out = Buf::new();
    for i in 0..letters {
        out.push(ALPHABET[(bits >> (5 * (letters - 1 - i)) & 31) as usize]);
    }
    out
}

/// The number a text denotes, if any: a whole number of bytes, at most eight.
fn amount_reading(s: &[u8]) -> Option<u64> {
    let len = s.len() * 5 / 8;
    if s.is_empty() || len > 8 || (8 * len + 4) / 5 != s.len() {
        return None;
    }
    let mut bits: u128 = 0;
    for c in s {
        let mut d = 32;
        for i in 0..32 {
            if ALPHABET[i] == *c {
                d = i;
            }
        }
        if d == 32 {
            return None;
        }
        bits = bits << 5 | d as u128;
    }
    let pad = 5 * s.len() - 8 * len;
    if bits & ((1 << pad) - 1) != 0 {
        return None;
    }
    bits >>= pad;
    let mut v = 0u64;
    for i in 0..len {
        v |= ((bits >> (8 * (len - 1 - i)) & 0xff) as u64) << (8 * i);
    }
    Some(v)
}

/// First choice: number of significant bytes of the amount.
pub fn amount_read<S: Src>(s: &mut S) {
    let n = 1 + s.below(8);
    let v = s.u64();
    s.assume(n == 8 || v >> (8 * n) == 0);
    reach!(s, v >> (8 * (n - 1)) != 0, "canonical");
    let text = amount_letters(v, n as usize);
    post!(Amount::from_str(text.str()) == Ok(Amount::from(v)), "amount: text is read as the number");
}

pub fn amount<S: Src>(s: &mut S) {
    let n = 1 + s.below(8);
    let v = s.u64();
    s.assume(n == 8 || v >> (8 * n) == 0);
    s.assume(n == 1 || v >> (8 * (n - 1)) != 0);
    reach!(s, v & 0xff == 0, "lowest byte zero");
    let mut text = Buf::<16>::new();
    post!(write!(text, "{}", Amount::from(v)).is_ok(), "amount: has a text");
    let want = amount_oracle(v);
    post!(text.n == want.n, "amount: length of the text");
    for i in 0..want.n {
        post!(text.b[i] == want.b[i], "amount: letters of the text");
    }
    post!(Amount::from_str(text.str()) == Ok(Amount::from(v)), "amount: reads back");
}

/// First choice: length of the text.
pub fn amount_text<S: Src>(s: &mut S) {
    let n = s.below(18) as usize;
    let mut text = Buf::<20>::new();
    // Mostly letters of the alphabet, anything else now and then
    for _ in 0..n {
        let c = s.u8();
        if s.below(16) == 0 {
            s.assume(c < 128);
            text.push(c);
        } else {
            text.push(ALPHABET[(c & 31) as usize]);
        }
    }
    let want = amount_reading(&text.b[..n]);
    reach!(s, want.is_some(), "accepted");
    reach!(s, want.is_none(), "refused");
    let got = Amount::from_str(text.str()).ok();
    post!(got == want.map(Amount::from), "amount: a text is read as the number it denotes, or refused");
}

/// Natively random texts hardly ever are amounts: here the padding is right.
fn amount_alias<S: Src>(s: &mut S) {
    let v = s.u64();
    let extra = s.below(9) as usize;
    // The same number with more zero bytes, or more bytes than fit
    let len = (1..9).find(|l| *l == 8 || v >> (8 * l) == 0).unwrap() + extra;
    let mut bytes = v.to_le_bytes().to_vec();
    bytes.resize(17, 0);
    bytes.truncate(len);
    if len > 8 && s.bool() {
        bytes[len - 1] = s.u8();
    }
    let bits: Vec<u8> = bytes.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1)).collect();
    let text: String = bits
        .chunks(5)
        .map(|c| {
            let d = (0..5).fold(0, |a, i| a << 1 | c.get(i).copied().unwrap_or(0));
            ALPHABET[d as usize] as char
        })
        .collect();
    let got = Amount::from_str(&text).ok();
    reach!(s, len > 8, "too long");
    reach!(s, extra > 0 && len <= 8, "zero bytes");
    if len > 8 {
        post!(got.is_none(), "amount: more than eight bytes are refused");
    } else {
        post!(got == Some(Amount::from(v)), "amount: same number with leading zeros");
    }
}

fn decimal(mut v: u64) -> Vec<u8> {
    let mut out = vec![];
    loop {
        out.insert(0, b'0' + (v % 10) as u8);
        v /= 10;
        if v == 0 {
            return out;
        }
    }
}

fn grouped(s: &[u8], sep: u8) -> Vec<u8> {
    let mut out = vec![];
    for (i, c) in s.iter().enumerate() {
        if i > 0 && (s.len() - i) % 3 == 0 {
            out.push(sep);
        }
        out.push(*c);
    }
    out
}

fn coin<S: Src>(s: &mut S) {
    let p = s.below(19) as usize;
    let int = s.u64();
    let fract = s.u64() % POW10[p];
    reach!(s, fract == 0 && p > 0, "no fraction");
    reach!(s, fract != 0 && fract % 10 == 0, "trailing zero");
    reach!(s, p == 0, "indivisible");
    let c = CoinAmount::with(int, fract, PRECISIONS[p]).expect("fraction less than one");

    let mut digits = decimal(fract);
    while digits.len() < p {
        digits.insert(0, b'0');
    }
    let mut want = decimal(int);
    if fract != 0 {
        let mut short = digits.clone();
        while short.last() == Some(&b'0') {
            short.pop();
        }
        want.push(b'.');
        want.extend(short);
    }
    want.push(b'~');
    want.extend(decimal(p as u64));
    let text = c.to_string();
    post!(text.as_bytes() == want, "coin: text is the decimal notation with its precision");
    post!(CoinAmount::from_str(&text) == Ok(c), "coin: reads back");

    let sep = if s.bool() { b'_' } else { b' ' };
    let mut want = grouped(&decimal(int), sep);
    if p > 0 {
        want.push(b'.');
        want.extend(grouped(&digits, sep));
    }
    let text = if sep == b'_' { format!("{c:_>#}") } else { format!("{c:#}") };
    post!(text.as_bytes() == want, "coin: grouped text is the full decimal notation");
    post!(CoinAmount::from_str(&text) == Ok(c), "coin: grouped text reads back");
    if sep == b' ' {
        post!(format!("{c: >#}") == text, "coin: grouping by a named space");
    }
}

/// Digits with an optional plus sign, as the standard library reads them.
fn number(s: &[u8]) -> Option<u128> {
    let s = s.strip_prefix(b"+").unwrap_or(s);
    if s.is_empty() || s.len() > 30 || !s.iter().all(u8::is_ascii_digit) {
        return None;
    }
    Some(s.iter().fold(0, |a, c| a * 10 + (c - b'0') as u128))
}

/// What a text denotes: `int[.fract][~precision]`, group separators ignored.
fn coin_reading(s: &[u8]) -> Option<(u64, u64, usize)> {
    let s: Vec<u8> = s.iter().copied().filter(|c| *c != b' ' && *c != b'_').collect();
    let (num, prec) = match s.iter().position(|c| *c == b'~') {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (&s[..], None),
    };
    let (int, fract) = match num.iter().position(|c| *c == b'.') {
        Some(i) => (&num[..i], &num[i + 1..]),
        None => (num, &b""[..]),
    };
    let int = u64::try_from(number(int)?).ok()?;
    if !fract.iter().all(u8::is_ascii_digit) {
        return None;
    }
    let prec = match prec {
        None => fract.len(),
        // an empty precision counts as an omitted one
        Some(b"") => fract.len(),
        Some(p) => usize::try_from(number(p)?).ok()?,
    };
    if prec > 18 || fract.len() > prec {
        return None;
    }
    let v = fract.iter().fold(0u64, |a, c| a * 10 + (c - b'0') as u64);
    Some((int, v * POW10[prec - fract.len()], prec))
}

/// Texts which a strict reader takes: no signs, no empty parts.
fn strict(s: &[u8]) -> bool {
    let mut part = false;
    for c in s {
        match c {
            b'0'..=b'9' => part = true,
            b' ' | b'_' => {}
            b'.' | b'~' if part => part = false,
            _ => return false,
        }
    }
    part
}

fn coin_text<S: Src>(s: &mut S) {
    const CH: &[u8] = b"0159.~_ +-x8";
    let n = s.below(8) as usize;
    let mut text = vec![];
    for _ in 0..n {
        match s.below(13) {
            12 => text.extend(b"18446744073709551615"),
            i => text.push(CH[i as usize]),
        }
    }
    let want = coin_reading(&text);
    reach!(s, want.is_some() && text.contains(&b'~') && text.contains(&b'.'), "accepted");
    reach!(s, want.is_none() && number(&text).is_some(), "does not fit");
    let got = CoinAmount::from_str(std::str::from_utf8(&text).unwrap()).ok();
    if let Some(got) = got {
        let r = (got.int(), got.fract(), got.precision().decimals() as usize);
        post!(Some(r) == want, "coin: a text is read only as the number it denotes");
    }
    if strict(&text) && want.is_some() {
        post!(got.is_some(), "coin: decimal notation is accepted");
    }
}

/// Decimal texts of random amounts with every number of digits and precision.
fn coin_digits<S: Src>(s: &mut S) {
    let int = s.u64();
    let p = s.below(21) as usize;
    let d = s.below(22) as usize;
    let mut text = int.to_string();
    if d > 0 {
        text.push('.');
    }
    for _ in 0..d {
        let c = s.below(10);
        text.push((b'0' + c as u8) as char);
    }
    let named = s.bool();
    if named {
        text.push('~');
        text.push_str(&p.to_string());
    }
    let want = coin_reading(text.as_bytes());
    reach!(s, want.is_some() && named && d < p, "fewer digits");
    reach!(s, want.is_none() && named && p < 19, "more digits");
    let got = CoinAmount::from_str(&text)
        .ok()
        .map(|c| (c.int(), c.fract(), c.precision().decimals() as usize));
    post!(got == want, "coin: decimal notation is read as the number it denotes");
}

fn allocation<S: Src>(s: &mut S) {
    let (index, fraction) = (s.u32(), s.u64());
    reach!(s, index as u64 != fraction, "different numbers");
    let a = Allocation::with(index, fraction);
    post!(a.token_index() == TokenIndex::from(index), "allocation: index");
    post!(a.fraction() == OwnedFraction::from(fraction), "allocation: fraction");
    post!(a.fraction().value() == fraction, "fraction: value");
    let mut want = decimal(fraction);
    want.push(b'@');
    want.extend(decimal(index as u64));
    let text = a.to_string();
    post!(text.as_bytes() == want, "allocation: text is fraction@index");
    post!(Allocation::from_str(&text) == Ok(a), "allocation: reads back");
    let n = NonFungible::RGB21(a);
    post!(n.to_string() == text, "allocation: same text as non-fungible state");
    post!(NonFungible::from_str(&text) == Ok(n), "allocation: reads back as non-fungible state");
    let (i, f) = (TokenIndex::from(index), OwnedFraction::from(fraction));
    post!(TokenIndex::from_str(&i.to_string()) == Ok(i), "token index: reads back");
    post!(OwnedFraction::from_str(&f.to_string()) == Ok(f), "fraction: reads back");
    post!(i.to_string().as_bytes() == decimal(index as u64), "token index: decimal");
    post!(f.to_string().as_bytes() == decimal(fraction), "fraction: decimal");
}

fn allocation_state<S: Src>(s: &mut S) {
    let (index, fraction) = (s.u32(), s.u64());
    reach!(s, index > 0xffff && fraction > u32::MAX as u64, "wide");
    let a = Allocation::with(index, fraction);
    let state = DataState::from(a);
    let mut want = index.to_le_bytes().to_vec();
    want.extend(fraction.to_le_bytes());
    post!(state.as_slice() == want, "allocation: state is index and fraction");
    post!(Allocation::from(state.clone()) == a, "allocation: state reads back");
    let r = RevealedData { value: state, salt: s.u64() as u128 };
    post!(Allocation::from(r) == a, "allocation: revealed state reads back");
}

fn allocation_text<S: Src>(s: &mut S) {
    const CH: &[u8] = b"0159@ +-x";
    let n = s.below(8) as usize;
    let mut text = vec![];
    for _ in 0..n {
        match s.below(13) {
            9 => text.extend(b"18446744073709551615"),
            10 => text.extend(b"4294967295"),
            11 => text.push(b'@'),
            12 => text.extend(b"18446744073709551616"),
            i => text.push(CH[i as usize]),
        }
    }
    let want = text.iter().position(|c| *c == b'@').and_then(|i| {
        let f = u64::try_from(number(&text[..i])?).ok()?;
        let t = u32::try_from(number(&text[i + 1..])?).ok()?;
        Some(Allocation::with(t, f))
    });
    reach!(s, want.is_some(), "accepted");
    reach!(s, want.is_none(), "refused");
    let text = std::str::from_utf8(&text).unwrap();
    let got = Allocation::from_str(text).ok();
    if got.is_some() || !text.contains('+') {
        post!(got == want, "allocation: a text is read as the numbers it denotes, or refused");
    }
    post!(
        NonFungible::from_str(text).ok() == got.map(NonFungible::RGB21),
        "allocation: same as non-fungible state"
    );
}

#[cfg(kani)]
mod k {
    crate::proof_split!([kani::unwind(15)] amount_read : 0 1 2 3 4 5 6 7);
    crate::proof_split!([kani::unwind(34)] amount_text : 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17);
}

pub const PROPERTY: Property = Property {
    id: "C03",
    module: "c03",
    contracts: &[
        Contract {
            name: "amount",
            f: amount,
            fns: &["Amount::fmt", "Amount::from_str"],
            kani: Kani::No,
            native: "boundary table and seeded sample",
            reach: &["lowest byte zero"],
        },
        Contract {
            name: "amount_read",
            f: amount_read,
            fns: &["Amount::from_str"],
            kani: Kani::Split(8),
            native: "boundary table and seeded sample",
            reach: &["canonical"],
        },
        Contract {
            name: "amount_text",
            f: amount_text,
            fns: &["Amount::from_str"],
            kani: Kani::SplitBounded(18, "ASCII texts of at most 17 characters"),
            native: "texts of at most 17 characters, seeded sample",
            reach: &["accepted", "refused"],
        },
        Contract {
            name: "amount_alias",
            f: amount_alias,
            fns: &["Amount::from_str"],
            kani: Kani::No,
            native: "well-formed texts of up to 16 bytes, seeded sample",
            reach: &["too long", "zero bytes"],
        },
        Contract {
            name: "coin",
            f: coin,
            fns: &["CoinAmount::fmt", "CoinAmount::from_str"],
            kani: Kani::No,
            native: "all precisions, boundary table and seeded sample of the parts",
            reach: &["no fraction", "trailing zero", "indivisible"],
        },
        Contract {
            name: "coin_text",
            f: coin_text,
            fns: &["CoinAmount::from_str"],
            kani: Kani::No,
            native: "texts of up to 7 tokens (digits, separators, signs, 2^64-1), enumerated then sampled",
            reach: &["accepted", "does not fit"],
        },
        Contract {
            name: "coin_digits",
            f: coin_digits,
            fns: &["CoinAmount::from_str"],
            kani: Kani::No,
            native: "all precisions up to 20 and 0 to 21 fractional digits, sampled",
            reach: &["fewer digits", "more digits"],
        },
        Contract {
            name: "allocation",
            f: allocation,
            fns: &[
                "Allocation::fmt",
                "Allocation::from_str",
                "NonFungible::fmt",
                "NonFungible::from_str",
                "TokenIndex/OwnedFraction fmt and from_str",
            ],
            kani: Kani::No,
            native: "boundary table and seeded sample",
            reach: &["different numbers"],
        },
        Contract {
            name: "allocation_state",
            f: allocation_state,
            fns: &["DataState::from(Allocation)", "Allocation::from(DataState)", "Allocation::from(RevealedData)"],
            kani: Kani::No,
            native: "boundary table and seeded sample",
            reach: &["wide"],
        },
        Contract {
            name: "allocation_text",
            f: allocation_text,
            fns: &["Allocation::from_str", "NonFungible::from_str"],
            kani: Kani::No,
            native: "texts of up to 7 tokens (digits, separators, signs, type limits), enumerated then sampled",
            reach: &["accepted", "refused"],
        },
    ],
    findings: &[],
};
