//! C22: names, tickers and specifications accept exactly the permitted text.

use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::str::FromStr;

use amplify::confinement::Confined;
use amplify::ByteArray;
use bp::{Outpoint, Txid};
use rgbstd::invoice::Precision;
use rgbstd::stl::{
    Article, AssetSpec, Attachment, ContractSpec, ContractTerms, Details, MediaRegName, MediaType,
    Name, ProofOfReserves, RicardianContract, StandardTypes, Ticker,
};
use strict_encoding::{StrictDecode, StrictEncode, StrictReader, StrictWriter};
use strict_types::StrictVal;

use crate::registry::{Contract, Kani, Property};
use crate::src::Src;
use crate::{post, reach};

#[derive(Copy, Clone, PartialEq)]
enum Kind {
    Ticker,
    Article,
    Name,
    Details,
    Media,
    Text,
}
use Kind::*;
const ALL: [Kind; 6] = [Ticker, Article, Name, Details, Media, Text];

fn max(k: Kind) -> usize {
    match k {
        Ticker => 8,
        Article => 32,
        Name => 40,
        Details => 255,
        Media => 64,
        Text => 0xFFFF,
    }
}

fn permitted(k: Kind, first: bool, c: char) -> bool {
    match k {
        Ticker | Article => c.is_ascii_alphabetic() || !first && c.is_ascii_digit(),
        Name => (' '..='~').contains(&c),
        Media => {
            c.is_ascii_lowercase() || !first && (c.is_ascii_digit() || "!#$&+-.^_".contains(c))
        }
        Details | Text => true,
    }
}

/// The rule a text has to meet, written down independently of the code.
fn allowed(k: Kind, text: &str) -> bool {
    let least = if k == Text { 0 } else { 1 };
    (least..=max(k)).contains(&text.len())
        && text.chars().enumerate().all(|(i, c)| permitted(k, i == 0, c))
}

/// A text of a length around the bounds, with one character possibly not permitted.
fn text<S: Src>(s: &mut S, k: Kind) -> String {
    let top = max(k);
    let n = match s.below(8) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => top - 1,
        4 => top,
        5 => top + 1,
        6 => 2 * top + 3,
        _ => s.below(top as u32 + 2) as usize,
    };
    let base = ['a', 'Z', 'q', 'B'];
    let off = s.below(4) as usize;
    let mut t: Vec<char> = (0..n)
        .map(|i| if k == Media { 'a' } else { base[(i + off) % 4] })
        .collect();
    let odd = s.below(4);
    if n > 0 && odd > 0 {
        let at = match s.below(4) {
            0 => 0,
            1 => n - 1,
            2 => n / 2,
            _ => s.below(n as u32) as usize,
        };
        t[at] = match odd {
            1 => char::from(s.below(128) as u8),
            2 => char::from(s.u8()),
            _ => ['é', 'Ж', '\u{212A}', 'ß', '😀', '\u{0}', '\u{7f}', '１'][s.below(8) as usize],
        };
        // the known finding `names`
        if k == Name && t[at].is_ascii_control() {
            t[at] = 'x';
        }
    }
    t.into_iter().collect()
}

fn bytes_of<T: StrictEncode>(v: &T) -> Option<Vec<u8>> {
    v.strict_encode(StrictWriter::in_memory::<0xFFFFFF>()).ok().map(|w| w.unbox().unconfine())
}
fn from_bytes<T: StrictDecode>(b: &[u8]) -> Option<T> {
    let mut r = StrictReader::in_memory::<0xFFFFFF>(b);
    T::strict_decode(&mut r).ok()
}
/// Length prefix and the text itself.
fn raw(k: Kind, t: &str) -> Option<Vec<u8>> {
    let mut v = match k {
        Text => u16::try_from(t.len()).ok()?.to_le_bytes().to_vec(),
        _ => vec![u8::try_from(t.len()).ok()?],
    };
    v.extend(t.as_bytes());
    Some(v)
}

macro_rules! check_text {
    ($k:expr, $t:expr, $ty:ty) => {{
        let ok = allowed($k, $t);
        let v = <$ty>::from_str($t);
        post!(v.is_ok() == ok, "text: accepted exactly when permitted");
        if let Ok(v) = &v {
            let r: &str = v.as_ref();
            post!(r == $t, "text: kept as given");
            post!(v.to_string() == $t, "text: prints as given");
            post!(<$ty>::from_str(&v.to_string()).as_ref() == Ok(v), "text: reads back equal");
            post!(bytes_of(v) == raw($k, $t), "text: encoded as it is");
        }
        if let Some(b) = raw($k, $t) {
            let d = from_bytes::<$ty>(&b);
            post!(d.is_some() == ok, "text: decoded exactly when permitted");
            if let Some(d) = d {
                post!(Ok(&d) == v.as_ref() && d.to_string() == $t, "text: decoded equal");
            }
        }
        v.ok()
    }};
}
macro_rules! check_owned {
    ($k:expr, $t:expr, $ty:ty) => {{
        let v = check_text!($k, $t, $ty);
        let o = <$ty>::try_from($t.to_owned());
        post!(o.ok() == v, "text: an owned text is treated alike");
        if v.is_some() {
            let st: &'static str = Box::leak($t.to_owned().into_boxed_str());
            post!(Some(<$ty>::from(st)) == v, "text: a static text is treated alike");
        }
        v
    }};
}

fn texts<S: Src>(s: &mut S) {
    let k = ALL[s.below(6) as usize];
    let t = text(s, k);
    reach!(s, allowed(k, &t) && t.len() == max(k), "longest text");
    reach!(s, !allowed(k, &t) && !t.is_empty() && t.len() <= max(k), "character not permitted");
    reach!(s, t.is_empty(), "empty text");
    let t = t.as_str();
    match k {
        Ticker => {
            check_owned!(k, t, rgbstd::stl::Ticker);
        }
        Article => {
            check_owned!(k, t, rgbstd::stl::Article);
        }
        Name => {
            if let Some(v) = check_owned!(k, t, rgbstd::stl::Name) {
                let st = StrictVal::String(t.to_owned());
                post!(rgbstd::stl::Name::from_strict_val_unchecked(&st) == v, "name: from a value");
            }
        }
        Details => {
            if let Some(v) = check_owned!(k, t, rgbstd::stl::Details) {
                let st = StrictVal::String(t.to_owned());
                post!(
                    rgbstd::stl::Details::from_strict_val_unchecked(&st) == v,
                    "details: from a value"
                );
            }
        }
        Media => {
            if let Some(v) = check_owned!(k, t, MediaRegName) {
                let st = StrictVal::String(t.to_owned());
                post!(MediaRegName::from_strict_val_unchecked(&st) == v, "media: from a value");
            }
        }
        Text => {
            check_text!(k, t, RicardianContract);
        }
    }
}

/// Control characters are not printable, and the type the standard library declares for names
/// does not have them.
fn names<S: Src>(s: &mut S) {
    let c = char::from(s.below(128) as u8);
    let t = if s.bool() { format!("{c}a") } else { format!("a{c}") };
    reach!(s, c.is_ascii_control(), "control character");
    post!(
        rgbstd::stl::Name::from_str(&t).is_ok() == allowed(Name, &t),
        "name: accepted exactly when printable"
    );
}

fn hash<T: Hash>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn tickers<S: Src>(s: &mut S) {
    let mut one = || {
        let n = 1 + s.below(3);
        let mut t = String::new();
        for i in 0..n {
            let set = if i == 0 { "abAzZ" } else { "abAzZ09" };
            let c = s.below(set.len() as u32) as usize;
            t.push_str(&set[c..=c]);
        }
        t
    };
    let (a, b, c) = (one(), one(), one());
    let up = |t: &str| t.to_ascii_uppercase();
    reach!(s, a != b && up(&a) == up(&b), "only the case differs");
    reach!(s, a < b && up(&a) > up(&b), "the case reverses the order");
    let t = |x: &str| rgbstd::stl::Ticker::from_str(x).unwrap();
    let (x, y, z) = (t(&a), t(&b), t(&c));
    post!((x == y) == (up(&a) == up(&b)), "ticker: equality ignores the case and nothing else");
    post!((x.cmp(&y) == Ordering::Equal) == (x == y), "ticker: ordering agrees with equality");
    post!(x.partial_cmp(&y) == Some(x.cmp(&y)), "ticker: both orderings agree");
    post!(x.cmp(&y) == y.cmp(&x).reverse(), "ticker: ordering is antisymmetric");
    post!(!(x <= y && y <= z) || x <= z, "ticker: ordering is transitive");
    post!(x != y || hash(&x) == hash(&y), "ticker: equal tickers hash alike");
    post!(x.as_str() == a && x.to_string() == a, "ticker: shown with the case given");
    let set = std::collections::BTreeSet::from([x.clone(), y.clone(), z.clone()]);
    let hs = std::collections::HashSet::<_>::from([x, y, z]);
    let n = std::collections::BTreeSet::from([up(&a), up(&b), up(&c)]).len();
    post!(set.len() == n && hs.len() == n, "ticker: sets hold each ticker once");
}

/// The value as the type system reads it from the encoded form.
fn val<T: StrictEncode>(v: &T, name: &'static str) -> StrictVal {
    thread_local!(static ST: (StandardTypes, strict_types::TypeSystem) = {
        let st = StandardTypes::new();
        let sys = st.type_system();
        (st, sys)
    });
    let b = bytes_of(v).unwrap();
    ST.with(|(st, sys)| sys.strict_deserialize_type(st.get(name), &b).unwrap().unbox())
}

fn precision(n: u32) -> Precision { Precision::try_from(n as u8).unwrap() }

fn specs<S: Src>(s: &mut S) {
    let k = if s.bool() { Ticker } else { Article };
    let first = text(s, k);
    let name = text(s, Name);
    let details = if s.bool() { Some(text(s, Details)) } else { None };
    let p = precision(s.below(19));
    let rest = allowed(Name, &name) && details.as_ref().is_none_or(|d| allowed(Details, d));
    reach!(s, rest && allowed(Ticker, &first) && details.is_some(), "all parts permitted");
    reach!(s, !rest && allowed(Ticker, &first), "a part not permitted");
    let r = AssetSpec::with(&first, &name, p, details.as_deref());
    post!(r.is_ok() == (rest && allowed(Ticker, &first)), "asset: all parts permitted");
    if let Ok(v) = r {
        post!(v.ticker() == first && v.name() == name, "asset: ticker and name");
        post!(v.details() == details.as_deref() && v.precision == p, "asset: details, precision");
        let w = AssetSpec::from_strict_val_unchecked(&val(&v, "RGBContract.AssetSpec"));
        post!(w == v && w.ticker() == first, "asset: reads back equal");
        post!(from_bytes(&bytes_of(&v).unwrap()) == Some(v), "asset: decodes equal");
        let leak = |t: &str| -> &'static str { Box::leak(t.to_owned().into_boxed_str()) };
        let v = AssetSpec::new(leak(&first), leak(&name), p);
        post!(v.ticker() == first && v.name() == name, "asset: made new");
        post!(v.details().is_none() && v.precision == p, "asset: new without details");
    }
    let r = ContractSpec::with(&first, &name, p, details.as_deref());
    post!(r.is_ok() == (rest && allowed(Article, &first)), "contract: all parts permitted");
    if let Ok(mut v) = r {
        post!(v.article() == Some(&*first) && v.name() == name, "contract: article and name");
        post!(
            v.details() == details.as_deref() && v.precision == p,
            "contract: details, precision"
        );
        if s.bool() {
            v.article = None;
        }
        let w = ContractSpec::from_strict_val_unchecked(&val(&v, "RGBContract.ContractSpec"));
        post!(w == v, "contract: reads back equal");
        post!(from_bytes(&bytes_of(&v).unwrap()) == Some(v), "contract: decodes equal");
        let leak = |t: &str| -> &'static str { Box::leak(t.to_owned().into_boxed_str()) };
        let v = ContractSpec::new(leak(&name), p);
        post!(v.article().is_none() && v.name() == name, "contract: made new");
        post!(v.details().is_none() && v.precision == p, "contract: new without details");
    }
}

fn media<S: Src>(s: &mut S) {
    let reg = |s: &mut S| {
        let n = 1 + s.below(3);
        (0..n)
            .map(|i| {
                let set = if i == 0 { "azx" } else { "a0+.-z" };
                set.as_bytes()[s.below(set.len() as u32) as usize] as char
            })
            .collect::<String>()
    };
    let ty = reg(s);
    let sub = if s.bool() { Some(reg(s)) } else { None };
    let charset = if s.bool() { Some(reg(s)) } else { None };
    reach!(s, sub.is_none() && charset.is_some(), "any subtype");
    reach!(s, sub.is_some() && charset.is_none(), "subtype without character set");
    let shown = format!("{ty}/{}", sub.as_deref().unwrap_or("*"));
    let mut m = MediaType::with(Box::leak(shown.clone().into_boxed_str()));
    post!(m.ty.as_str() == ty, "media: type");
    post!(m.subtype.as_ref().map(|x| x.as_str()) == sub.as_deref(), "media: subtype");
    post!(m.charset.is_none(), "media: no character set by itself");
    post!(m.to_string() == shown, "media: prints as given");
    m.charset = charset.as_deref().map(|c| MediaRegName::from_str(c).unwrap());
    let w = MediaType::from_strict_val_unchecked(&val(&m, "RGBContract.MediaType"));
    post!(w == m, "media: reads back equal");

    let att = Attachment { ty: m.clone(), digest: [s.u8(); 32].into() };
    let w = Attachment::from_strict_val_unchecked(&val(&att, "RGBContract.Attachment"));
    post!(w == att, "attachment: reads back equal");

    let t = "é".repeat(s.below(4) as usize) + "line\n";
    let terms = ContractTerms {
        text: RicardianContract::from_str(&t).unwrap(),
        media: if s.bool() { Some(att) } else { None },
    };
    let w = ContractTerms::from_strict_val_unchecked(&val(&terms, "RGBContract.ContractTerms"));
    post!(w == terms && w.text.to_string() == t, "terms: read back equal");

    let por = ProofOfReserves::new(
        Outpoint::new(Txid::from_byte_array([s.u8(); 32]), s.u32()),
        Confined::try_from((0..s.below(5)).map(|i| i as u8).collect::<Vec<_>>()).unwrap(),
    );
    let w = ProofOfReserves::from_strict_val_unchecked(&val(&por, "RGBContract.ProofOfReserves"));
    post!(w == por, "reserves: read back equal");
}

pub const PROPERTY: Property = Property {
    id: "C22",
    module: "c22",
    contracts: &[
        Contract {
            name: "texts",
            f: texts,
            fns: &[
                "Ticker/Article/Name/Details/MediaRegName/RicardianContract::from_str, try_from, from, Display, strict encoding",
                "Name/Details/MediaRegName::from_strict_val_unchecked",
                "MimeChar",
            ],
            kani: Kani::No,
            native: "texts of lengths around the bounds with one character out of all of ASCII, Latin-1 and samples beyond",
            reach: &["longest text", "character not permitted", "empty text"],
        },
        Contract {
            name: "tickers",
            f: tickers,
            fns: &["Ticker::eq, cmp, partial_cmp, hash"],
            kani: Kani::No,
            native: "all triples of tickers of up to 3 characters over 5 letters and 2 digits, sampled",
            reach: &["only the case differs", "the case reverses the order"],
        },
        Contract {
            name: "specs",
            f: specs,
            fns: &[
                "AssetSpec::new/with/ticker/name/details/from_strict_val_unchecked",
                "ContractSpec::new/with/article/name/details/from_strict_val_unchecked",
            ],
            kani: Kani::No,
            native: "texts as in `texts`, all precisions",
            reach: &["all parts permitted", "a part not permitted"],
        },
        Contract {
            name: "media",
            f: media,
            fns: &[
                "MediaType::with/Display/from_strict_val_unchecked",
                "Attachment/ContractTerms/ProofOfReserves::from_strict_val_unchecked",
            ],
            kani: Kani::No,
            native: "names of up to 3 characters",
            reach: &["any subtype", "subtype without character set"],
        },
    ],
    findings: &[Contract {
        name: "names",
        f: names,
        fns: &["Name::from_str"],
        kani: Kani::No,
        native: "all ASCII characters in the first and the second place",
        reach: &[],
    }],
};
