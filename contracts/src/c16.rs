//! C16: containers keep their identity and content across files and armor.
//# assumes: SHA-256 is collision free over the containers tried

use std::collections::BTreeSet;
use std::str::FromStr;

use aluvm::library::Lib;
use amplify::confinement::Confined;
use amplify::ByteArray;
use armor::AsciiArmor;
use rgbcore::{Assign, AttachId, BundleId, Identity, TypedAssigns, XChain};
use rgbstd::containers::{
    Consignment, ConsignmentId, ContainerVer, Contract as RgbContract, ContentId, ContentRef, ContentSigs, FileContent,
    Kit, KitId, PubWitness, SigBlob, SupplId, SupplItem, SupplSub, Supplement, Transfer, UniversalFile, XPubWitness,
};
use rgbstd::interface::{IfaceId, ImplId};
use rgbstd::stl::Name;
use strict_encoding::{StrictDeserialize, StrictSerialize};

use crate::registry::{Contract, Kani, Property};
use crate::src::Src;
use crate::{c10, c21, fx, post, reach, world};

const WHO: [&str; 4] = ["ssi:anonymous", "a; b=c, d", "id: x=y;z", "plain"];

fn who(n: u32) -> Identity { Identity::from_str(WHO[n as usize % 4]).unwrap() }
fn sig(n: u32) -> SigBlob { SigBlob::from(Confined::try_from(vec![n as u8, 1]).unwrap()) }
fn sigs(n: u32, m: u32) -> ContentSigs {
    ContentSigs::from(Confined::try_from_iter((0..m).map(|i| (who(n + i), sig(n)))).unwrap())
}
fn lib(n: u32) -> Lib { Lib::with("ALU", vec![n as u8; n as usize], vec![], Default::default()).unwrap() }
fn suppl(to: ContentRef, n: u32) -> Supplement {
    let mut x = Supplement::new(to, who(n));
    x.timestamp = n as i64;
    x
}
fn ids(n: u32) -> [ContentId; 3] {
    let k = world::kinds(n);
    [
        ContentId::Schema(k.schema.schema_id()),
        ContentId::Iface(k.iface.iface_id()),
        ContentId::IfaceImpl(k.iimpl.impl_id()),
    ]
}
fn refs(n: u32) -> [ContentRef; 3] {
    let k = world::kinds(n);
    [
        ContentRef::Schema(k.schema.schema_id()),
        ContentRef::Iface(k.iface.iface_id()),
        ContentRef::IfaceImpl(k.iimpl.impl_id()),
    ]
}

fn kit<S: Src>(s: &mut S) -> Kit {
    let mut kit = Kit::default();
    let n = s.below(3);
    for i in 0..n {
        let k = world::kinds(i);
        let (mut schema, mut iface, mut iimpl) = (k.schema.clone(), k.iface.clone(), k.iimpl.clone());
        match s.below(4) {
            0 => {}
            1 => schema.developer = who(s.below(4)),
            2 => iface.developer = who(s.below(4)),
            _ => iimpl.developer = who(s.below(4)),
        }
        kit.schemata.push(schema).unwrap();
        kit.ifaces.push(iface).unwrap();
        kit.iimpls.push(iimpl).unwrap();
        kit.types.extend(k.types.clone()).unwrap();
        for j in 0..3 {
            match s.below(4) {
                0 => {}
                1 => kit.supplements.push(suppl(refs(i)[j], j as u32)).unwrap(),
                2 => {
                    kit.signatures.insert(ids(i)[j], sigs(j as u32, 1)).unwrap();
                }
                _ => {
                    kit.signatures.insert(ids(i)[j], sigs(0, 3)).unwrap();
                    kit.supplements.push(suppl(refs(i)[j], 1)).unwrap();
                    kit.supplements.push(suppl(refs(i)[j], 2)).unwrap();
                }
            }
        }
    }
    for i in 0..s.below(3) {
        kit.scripts.push(lib(i)).unwrap();
    }
    kit
}

fn consignment<const T: bool, S: Src>(s: &mut S) -> Consignment<T> {
    let sc = c10::scene(1);
    let mut c: Consignment<T> = {
        let x = sc.transfer.clone().into_consignment();
        Consignment {
            version: ContainerVer::V2,
            transfer: T,
            terminals: x.terminals,
            genesis: x.genesis,
            extensions: x.extensions,
            bundles: x.bundles,
            schema: x.schema,
            ifaces: x.ifaces,
            supplements: x.supplements,
            types: x.types,
            scripts: x.scripts,
            attachments: x.attachments,
            signatures: x.signatures,
        }
    };
    let secret = *c.terminals.values().next().unwrap();
    if s.bool() {
        c.bundles = Default::default();
    }
    match s.below(4) {
        0 => {}
        1 => c.terminals = Default::default(),
        m => {
            for i in 1..m {
                c.terminals.insert(BundleId::from_byte_array(fx::b32(i)), secret).unwrap();
            }
        }
    }
    match s.below(3) {
        0 => {}
        1 => c.ifaces = Default::default(),
        _ => {
            let k = world::kinds(1);
            c.ifaces.insert(k.iface.clone(), k.iimpl.clone()).unwrap();
        }
    }
    for i in 0..s.below(3) {
        c.attachments
            .insert(AttachId::from_byte_array(fx::b32(i)), Confined::try_from(vec![i as u8; 3]).unwrap())
            .unwrap();
    }
    for i in 0..s.below(3) {
        c.extensions.push(fx::extension(fx::contract_id(0), i as u64, Default::default())).unwrap();
    }
    for i in 0..s.below(3) {
        c.scripts.push(lib(i)).unwrap();
        c.supplements.push(suppl(refs(0)[i as usize], i)).unwrap();
    }
    for i in 0..s.below(4) {
        c.signatures.insert(ids(0)[i as usize], sigs(i, 1 + i % 2)).unwrap();
    }
    c
}

/// Equal to the last byte: the equality of operations does not tell a concealed seal from a revealed one.
fn same<T: StrictSerialize>(a: &T, b: &T) -> bool {
    a.to_strict_serialized::<0xFFFFFF>().unwrap() == b.to_strict_serialized::<0xFFFFFF>().unwrap()
}

fn saved(u: &UniversalFile) -> Vec<u8> {
    let mut v = vec![];
    u.save(&mut v).unwrap();
    v
}

macro_rules! one_file {
    ($s:expr, $c:expr, $ty:ty, $magic:expr, $id:ident, $var:ident, [$($other:ty),*]) => {{
        let c: $ty = $c;
        let id = c.$id();
        let mut data = vec![];
        post!(c.save(&mut data).is_ok(), "file: written");
        post!(data.starts_with(b"RGB\0") && data[4..7] == $magic[..], "file: starts with the magic bytes");
        let r = <$ty>::load(&data[..]);
        post!(
            r.as_ref().is_ok_and(|x| *x == c && same(x, &c) && x.$id() == id),
            "file: reads back equal and with the same identifier"
        );
        $(post!(<$other>::load(&data[..]).is_err(), "file: of another kind refused");)*
        let u = UniversalFile::$var(c.clone());
        post!(saved(&u) == data, "any file: written as a file of its kind");
        match UniversalFile::load(&data[..]) {
            Ok(UniversalFile::$var(x)) => post!(same(&x, &c) && x.$id() == id, "any file: reads back equal"),
            _ => post!(false, "any file: recognised"),
        }
        // damages
        let at = $s.below(7) as usize;
        let by = 1 + ($s.u8() % 255);
        let mut bad = data.clone();
        bad[at] ^= by;
        post!(<$ty>::load(&bad[..]).is_err(), "file: foreign prefix refused");
        let named = [b"KIT", b"CON", b"TFR"].iter().any(|m| bad.starts_with(b"RGB\0") && bad[4..7] == m[..]);
        if !named {
            post!(UniversalFile::load(&bad[..]).is_err(), "any file: foreign prefix refused");
        }
        let end = match $s.below(3) {
            0 => data.len() - 1,
            1 => $s.below(8) as usize,
            _ => $s.below(data.len() as u32) as usize,
        };
        post!(<$ty>::load(&data[..end]).is_err(), "file: incomplete one refused");
        post!(UniversalFile::load(&data[..end]).is_err(), "any file: incomplete one refused");
    }};
}

fn files<S: Src>(s: &mut S) {
    match s.below(3) {
        0 => one_file!(s, kit(s), Kit, b"KIT", kit_id, Kit, [RgbContract, Transfer]),
        1 => one_file!(s, consignment::<false, S>(s), RgbContract, b"CON", consignment_id, Contract, [Kit, Transfer]),
        _ => one_file!(s, consignment::<true, S>(s), Transfer, b"TFR", consignment_id, Transfer, [Kit, RgbContract]),
    }
}

/// Files on a disk.
fn disk<S: Src>(s: &mut S) {
    let dir = c21::Scratch::new();
    let (bin, txt) = (dir.0.join("bin"), dir.0.join("txt"));
    macro_rules! go {
        ($c:expr, $ty:ty, $var:ident) => {{
            let c: $ty = $c;
            // a longer file which is there already is replaced
            std::fs::write(&bin, vec![7u8; 200_000]).unwrap();
            post!(c.save_file(&bin).is_ok(), "disk: saved");
            post!(<$ty>::load_file(&bin).is_ok_and(|x| same(&x, &c)), "disk: loaded equal");
            let n = std::fs::read(&bin).unwrap();
            post!(n == saved(&UniversalFile::$var(c.clone())), "disk: nothing else in the file");
            post!(
                matches!(UniversalFile::load_file(&bin), Ok(UniversalFile::$var(x)) if same(&x, &c)),
                "disk: recognised"
            );
            std::fs::write(&bin, vec![7u8; 200_000]).unwrap();
            post!(UniversalFile::$var(c.clone()).save_file(&bin).is_ok(), "disk: saved as any");
            post!(std::fs::read(&bin).unwrap() == n, "disk: saved alike");
            post!(c.save_armored(&txt).is_ok(), "disk: armor saved");
            post!(<$ty>::load_armored(&txt).is_ok_and(|x| same(&x, &c)), "disk: armor loaded equal");
            post!(<$ty>::load_file(dir.0.join("none")).is_err(), "disk: no such file");
            post!(<$ty>::load_armored(dir.0.join("none")).is_err(), "disk: no such armor");
        }};
    }
    match s.below(3) {
        0 => go!(kit(s), Kit, Kit),
        1 => go!(consignment::<false, S>(s), RgbContract, Contract),
        _ => go!(consignment::<true, S>(s), Transfer, Transfer),
    }
}

/// The text, with a panic counted as a refusal (the known finding `damage`).
fn read<T: FromStr>(text: &str) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| T::from_str(text).ok())).ok().flatten()
}

fn damage<S: Src>(s: &mut S) {
    let text = Kit::default().to_string();
    let at = text.find("\n\n").unwrap() + 2 + s.below(10) as usize;
    let to = b"0Aaz~{}|`_"[s.below(10) as usize];
    let mut bad = text.into_bytes();
    bad[at] = to;
    let _ = Kit::from_str(&String::from_utf8(bad).unwrap());
}

macro_rules! one_armor {
    ($s:expr, $c:expr, $ty:ty, $id:ident, $var:ident, [$($other:ty),*]) => {{
        let c: $ty = $c;
        let id = c.$id();
        let text = c.to_ascii_armored_string();
        post!(text.is_ascii(), "armor: plain text");
        post!(c.to_string() == text, "armor: printed form of the container");
        post!(UniversalFile::$var(c.clone()).to_string() == text, "armor: printed form of any file");
        let r = <$ty>::from_ascii_armored_str(&text);
        post!(
            r.as_ref().is_ok_and(|x| *x == c && same(x, &c) && x.$id() == id),
            "armor: reads back equal and with the same identifier"
        );
        post!(<$ty>::from_str(&text).is_ok_and(|x| same(&x, &c)), "armor: parses as text");
        $(post!(<$other>::from_str(&text).is_err(), "armor: of another kind refused");)*
        let around = format!("Dear reader,\n{text}\nBye\n");
        post!(<$ty>::from_str(&around).is_ok_and(|x| same(&x, &c)), "armor: found within a text");
        // one character changed; with the title of the checksum gone the identifier is left
        let bytes = text.as_bytes();
        let at = match $s.below(3) {
            0 => $s.below(bytes.len() as u32) as usize,
            1 => $s.below(400.min(bytes.len() as u32)) as usize,
            _ => bytes.len() - 1 - $s.below(400.min(bytes.len() as u32)) as usize,
        };
        let to = b"0Aaz!$ \n:;,=-"[$s.below(13) as usize];
        if bytes[at] != to {
            let mut bad = bytes.to_vec();
            bad[at] = to;
            let bad = String::from_utf8(bad).unwrap();
            if let Some(x) = read::<$ty>(&bad) {
                post!(same(&x, &c), "armor: damage noticed");
            }
        }
        let cut = $s.below(bytes.len() as u32) as usize;
        if let Some(x) = read::<$ty>(&text[..cut]) {
            post!(same(&x, &c), "armor: incomplete text noticed");
        }
    }};
}

fn armor<S: Src>(s: &mut S) {
    match s.below(3) {
        0 => one_armor!(s, kit(s), Kit, kit_id, Kit, [RgbContract, Transfer]),
        1 => one_armor!(s, consignment::<false, S>(s), RgbContract, consignment_id, Contract, [Kit, Transfer]),
        _ => one_armor!(s, consignment::<true, S>(s), Transfer, consignment_id, Transfer, [Kit, RgbContract]),
    }
}

fn kit_change<S: Src>(s: &mut S, k: &mut Kit) {
    fn drop_one<T: Ord + Clone>(x: &BTreeSet<T>) -> BTreeSet<T> { x.iter().skip(1).cloned().collect() }
    match s.below(14) {
        0 => k.schemata = Confined::try_from(drop_one(&k.schemata)).unwrap(),
        1 => k.ifaces = Confined::try_from(drop_one(&k.ifaces)).unwrap(),
        2 => k.iimpls = Confined::try_from(drop_one(&k.iimpls)).unwrap(),
        3 => k.supplements = Confined::try_from(drop_one(&k.supplements)).unwrap(),
        4 => k.scripts = Confined::try_from(drop_one(&k.scripts)).unwrap(),
        5 => k.types = Default::default(),
        6 => {
            let v = k.signatures.iter().skip(1).map(|(a, b)| (*a, b.clone())).collect::<Vec<_>>();
            k.signatures = Confined::try_from_iter(v).unwrap();
        }
        7 => {
            k.signatures.insert(ContentId::Genesis(fx::contract_id(3)), sigs(1, 2)).unwrap();
        }
        8 => {
            let v = k.signatures.iter().map(|(a, _)| (*a, sigs(9, 1))).collect::<Vec<_>>();
            k.signatures = Confined::try_from_iter(v).unwrap();
        }
        9 => {
            let v = k.supplements.iter().cloned().map(|mut x| {
                x.annotate_itself("A", &note(5)).unwrap();
                x
            });
            k.supplements = Confined::try_from_iter(v.collect::<Vec<_>>()).unwrap();
        }
        10 => {
            let v = k.iimpls.iter().cloned().map(|mut x| {
                x.timestamp += 1;
                x
            });
            k.iimpls = Confined::try_from_iter(v.collect::<Vec<_>>()).unwrap();
        }
        11 => {
            let v = k.ifaces.iter().cloned().map(|mut x| {
                x.timestamp += 1;
                x
            });
            k.ifaces = Confined::try_from_iter(v.collect::<Vec<_>>()).unwrap();
        }
        12 => {
            let v = k.schemata.iter().cloned().map(|mut x| {
                x.timestamp += 1;
                x
            });
            k.schemata = Confined::try_from_iter(v.collect::<Vec<_>>()).unwrap();
        }
        _ => k.scripts.push(lib(5)).unwrap(),
    }
}

fn hide(a: &TypedAssigns<rgbcore::GenesisSeal>) -> TypedAssigns<rgbcore::GenesisSeal> {
    use commit_verify::Conceal;
    match a {
        TypedAssigns::Fungible(v) => TypedAssigns::Fungible(
            Confined::try_from_iter(v.iter().enumerate().map(|(i, x)| match x {
                Assign::Revealed { seal, state, lock } if i == 0 => {
                    Assign::ConfidentialSeal { seal: seal.conceal(), state: state.clone(), lock: *lock }
                }
                x => x.clone(),
            }))
            .unwrap(),
        ),
        TypedAssigns::Declarative(v) => TypedAssigns::Declarative(
            Confined::try_from_iter(v.iter().enumerate().map(|(i, x)| match x {
                Assign::Revealed { seal, state, lock } if i == 0 => {
                    Assign::ConfidentialSeal { seal: seal.conceal(), state: *state, lock: *lock }
                }
                x => x.clone(),
            }))
            .unwrap(),
        ),
        TypedAssigns::Structured(v) => TypedAssigns::Structured(
            Confined::try_from_iter(v.iter().enumerate().map(|(i, x)| match x {
                Assign::Revealed { seal, state, lock } if i == 0 => {
                    Assign::ConfidentialState { seal: *seal, state: state.conceal(), lock: *lock }
                }
                x => x.clone(),
            }))
            .unwrap(),
        ),
        x => x.clone(),
    }
}

fn consignment_change<const T: bool, S: Src>(s: &mut S, c: &mut Consignment<T>) {
    let secret = XChain::Bitcoin({
        use commit_verify::Conceal;
        fx::graph_seal(0, 77).conceal()
    });
    match s.below(18) {
        0 => {
            c.terminals.insert(BundleId::from_byte_array(fx::b32(8)), secret).unwrap();
        }
        1 => {
            let v = c.terminals.keys().map(|k| (*k, secret)).collect::<Vec<_>>();
            c.terminals = Confined::try_from_iter(v).unwrap();
        }
        2 => c.terminals = Default::default(),
        3 => c.bundles = Default::default(),
        4 => {
            let n = s.below(3);
            let at = c.genesis.assignments.keys().nth(n as usize).copied();
            let mut map = c.genesis.assignments.iter().map(|(k, v)| (*k, v.clone())).collect::<Vec<_>>();
            for (k, v) in &mut map {
                if Some(*k) == at {
                    *v = hide(v);
                }
            }
            c.genesis.assignments = fx::assignments(map);
        }
        5 => {
            c.attachments
                .insert(AttachId::from_byte_array(fx::b32(9)), Confined::try_from(vec![1]).unwrap())
                .unwrap();
        }
        6 => c.attachments = Default::default(),
        7 => c.supplements.push(suppl(refs(0)[0], 9)).unwrap(),
        8 => c.supplements = Default::default(),
        9 => {
            c.signatures.insert(ids(0)[2], sigs(9, 2)).unwrap();
        }
        10 => {
            let v = c.signatures.iter().map(|(a, _)| (*a, sigs(9, 1))).collect::<Vec<_>>();
            c.signatures = Confined::try_from_iter(v).unwrap();
        }
        11 => c.scripts.push(lib(6)).unwrap(),
        12 => c.types = Default::default(),
        13 => c.ifaces = Default::default(),
        14 => c.extensions.push(fx::extension(fx::contract_id(0), 50, Default::default())).unwrap(),
        15 => c.transfer = !c.transfer,
        16 => c.genesis.timestamp += 1,
        _ => {
            // the witness known by its id only, or fully
            let v = c.bundles.iter().cloned().map(|mut b| {
                if let XChain::Bitcoin(w) = &b.pub_witness {
                    b.pub_witness = XPubWitness::Bitcoin(match w {
                        PubWitness::Txid(_) => PubWitness::Tx(fx::tx(1)),
                        PubWitness::Tx(tx) => PubWitness::Txid(tx.txid()),
                        x => x.clone(),
                    });
                }
                b
            });
            c.bundles = Confined::try_from_iter(v.collect::<Vec<_>>()).unwrap();
        }
    }
}

macro_rules! distinct {
    ($s:expr, $a:expr, $b:expr, $id:ident) => {{
        let (a, b) = (&$a, &$b);
        let eq = same(a, b);
        reach!($s, !eq, "different containers");
        reach!($s, eq, "equal containers");
        reach!($s, !eq && a == b, "only the disclosure differs");
        post!((a.$id() == b.$id()) == eq, "identifier: same exactly for equal containers");
        post!(a.$id() == a.clone().$id(), "identifier: function of the content");
    }};
}

fn identity<S: Src>(s: &mut S) {
    match s.below(3) {
        0 => {
            let a = kit(s);
            let mut b = a.clone();
            kit_change(s, &mut b);
            distinct!(s, a, b, kit_id);
        }
        1 => {
            let a = consignment::<false, S>(s);
            let mut b = a.clone();
            consignment_change(s, &mut b);
            distinct!(s, a, b, consignment_id);
        }
        _ => {
            let a = consignment::<true, S>(s);
            let mut b = a.clone();
            consignment_change(s, &mut b);
            distinct!(s, a, b, consignment_id);
            let x = a.clone().into_contract();
            let back = RgbContract { transfer: x.transfer, ..consignment_as(a.clone()) };
            post!(!x.transfer && same(&x, &back), "contract of a transfer: all the parts");
        }
    }
}
fn consignment_as(x: Transfer) -> RgbContract {
    Consignment {
        version: x.version,
        transfer: x.transfer,
        terminals: x.terminals,
        genesis: x.genesis,
        extensions: x.extensions,
        bundles: x.bundles,
        schema: x.schema,
        ifaces: x.ifaces,
        supplements: x.supplements,
        types: x.types,
        scripts: x.scripts,
        attachments: x.attachments,
        signatures: x.signatures,
    }
}

/// Identifiers as texts.
fn names<S: Src>(s: &mut S) {
    let mut b = [s.u8(); 32];
    b[s.below(32) as usize] = s.u8();
    let mut other = b;
    other[s.below(32) as usize] ^= 1 + s.u8() % 255;
    macro_rules! go {
        ($ty:ty) => {{
            let x = <$ty>::from(b);
            let t = x.to_string();
            post!(<$ty>::from_str(&t).is_ok_and(|y| y == x), "identifier: parsed from its text");
            post!(<$ty>::from(other).to_string() != t, "identifier: own text");
        }};
    }
    go!(KitId);
    go!(ConsignmentId);
    go!(SupplId);
    go!(IfaceId);
    go!(ImplId);
}

fn note(v: u8) -> Name { Name::from_str(&format!("note {v}")).unwrap() }

fn notes<S: Src>(s: &mut S) {
    let mut x = suppl(refs(0)[0], 0);
    let mut model = std::collections::BTreeMap::new();
    let subs = [SupplSub::Itself, SupplSub::Meta, SupplSub::Owned];
    let items = [SupplItem::Default, SupplItem::TypeNo(1), SupplItem::TypeNo(2)];
    let names = ["A", "B-1"];
    // a place with no room left
    let full = s.below(3);
    if full == 1 {
        for i in 0..255u32 {
            let n: &'static str = Box::leak(format!("N{i}").into_boxed_str());
            x.annotate_itself(n, &note(i as u8)).unwrap();
        }
    } else if full == 2 {
        for i in 10..265u16 {
            x.annotate(SupplSub::Meta, SupplItem::TypeNo(i), "A", &note(1)).unwrap();
        }
    }
    for _ in 0..1 + s.below(4) {
        let (i, j, k) = (s.below(3) as usize, s.below(3) as usize, s.below(2) as usize);
        let before = x.clone();
        let v = s.u8();
        let way = s.below(3);
        let (r, i, j) = match way {
            0 => (x.annotate_itself(names[k], &note(v)), 0, 0),
            1 => (x.annotate_default(subs[i], names[k], &note(v)), i, 0),
            _ => (x.annotate(subs[i], items[j].clone(), names[k], &note(v)), i, j),
        };
        let room = match full {
            1 => !(i == 0 && j == 0),
            2 => !(i == 1),
            _ => true,
        };
        reach!(s, !room, "no room");
        reach!(s, full == 0 && model.contains_key(&(i, j, k)), "replaced");
        match r {
            Ok(had) => {
                post!(had == model.insert((i, j, k), v).is_some(), "annotation: told whether replaced");
                post!(room, "annotation: fits");
            }
            Err(_) => {
                post!(!room, "annotation: accepted when there is room");
                post!(x == before, "annotation: a refused one changes nothing");
            }
        }
    }
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..2 {
                let got = x.get::<Name>(subs[i], items[j].clone(), names[k]).map(|r| r.ok());
                post!(got == model.get(&(i, j, k)).map(|v| Some(note(*v))), "annotation: read as put");
                if j == 0 {
                    let d = x.get_default::<Name>(subs[i], names[k]).map(|r| r.ok());
                    post!(d == got, "annotation: default item");
                    post!(x.get_default_opt::<Name>(subs[i], names[k]) == got.clone().flatten(), "annotation: optional");
                }
            }
        }
    }
    let data = x.to_strict_serialized::<0xFFFFFF>().unwrap();
    post!(Supplement::from_strict_serialized(data).is_ok_and(|y| y == x), "supplement: reads back equal");
}

/// A schema taken out of a stock comes with all that belongs to it.
fn export<S: Src>(s: &mut S) {
    let mut stock = rgbstd::persistence::Stock::in_memory();
    let mut put = vec![];
    for n in 0..2 {
        if n == 1 && s.bool() {
            continue;
        }
        let k = world::kinds(n);
        let mut sch = k.schema.clone();
        let site = |n: u32| aluvm::library::LibSite::with(0, lib(n).id());
        let mut libs = BTreeSet::new();
        if s.bool() {
            sch.genesis.validator = Some(site(1 + n));
            libs.insert(lib(1 + n).id());
        }
        if s.bool() {
            let (id, mut t) = sch.transitions.iter().next().map(|(i, t)| (*i, t.clone())).unwrap();
            t.validator = Some(site(3));
            sch.transitions.insert(id, t).unwrap();
            libs.insert(lib(3).id());
        }
        let mut kit = Kit::default();
        kit.schemata.push(sch.clone()).unwrap();
        let mut faces = BTreeSet::new();
        let mut impls = BTreeSet::new();
        for f in 0..s.below(3) {
            let mut face = k.iface.clone();
            // another version of an interface of the first schema, or an own interface
            let version = s.bool();
            let no = if version { f } else { f + 2 * n };
            face.name = strict_encoding::TypeName::try_from(format!("Face{no}")).unwrap();
            face.timestamp += n as i64;
            reach!(s, n == 1 && version, "another version of an interface");
            let mut ii = k.iimpl.clone();
            ii.schema_id = sch.schema_id();
            ii.iface_id = face.iface_id();
            faces.insert(face.iface_id());
            impls.insert(ii.impl_id());
            kit.ifaces.push(face).unwrap();
            kit.iimpls.push(ii).unwrap();
        }
        kit.types = k.types.clone();
        for l in 1..5 {
            kit.scripts.push(lib(l)).unwrap();
        }
        let Ok(kit) = kit.validate() else { panic!("kit") };
        stock.import_kit(kit).unwrap();
        put.push((sch, faces, impls, libs));
    }
    let (sch, faces, impls, libs) = &put[s.below(put.len() as u32) as usize];
    let got = stock.export_schema(sch.schema_id()).unwrap().into_kit();
    reach!(s, put.len() > 1 && faces.len() > 1, "several schemata and interfaces");
    reach!(s, libs.len() > 1, "several scripts");
    post!(got.schemata.iter().map(|s| s.schema_id()).eq([sch.schema_id()]), "export: the schema and no other");
    post!(got.ifaces.iter().map(|f| f.iface_id()).collect::<BTreeSet<_>>() == *faces, "export: its interfaces");
    post!(got.iimpls.iter().map(|f| f.impl_id()).collect::<BTreeSet<_>>() == *impls, "export: its implementations");
    post!(got.scripts.iter().map(|l| l.id()).collect::<BTreeSet<_>>() == *libs, "export: its scripts");
    let types = &world::kinds(0).types;
    post!(sch.types().all(|t| got.types.get(t).is_some()), "export: the types it uses");
    post!(
        got.ifaces.iter().all(|f| f.types().all(|t| types.get(t).is_none() || got.types.get(t).is_some())),
        "export: the types its interfaces use"
    );
    let unknown = rgbcore::SchemaId::from(fx::b32(910));
    post!(stock.export_schema(unknown).is_err(), "export: an unknown schema is reported");
    let mut other = rgbstd::persistence::Stock::in_memory();
    let Ok(again) = got.clone().validate() else { panic!("kit") };
    other.import_kit(again).unwrap();
    let back = other.export_schema(sch.schema_id()).unwrap().into_kit();
    post!(back.kit_id() == got.kit_id(), "export: the same from the stock it was brought to");
}

pub const PROPERTY: Property = Property {
    id: "C16",
    module: "c16",
    contracts: &[
        Contract {
            name: "export",
            f: export,
            fns: &["Stock::export_schema", "Stash::extract", "Stash::consume_kit", "Stock::import_kit", "Kit::validate"],
            kani: Kani::No,
            native: "stocks of up to 2 schemata with up to 2 interfaces each and scripts",
            reach: &["several schemata and interfaces", "several scripts", "another version of an interface"],
        },
        Contract {
            name: "files",
            f: files,
            fns: &["FileContent::save", "FileContent::load", "UniversalFile::save", "UniversalFile::load"],
            kani: Kani::No,
            native: "kits and consignments with up to 3 pieces of each part; every damage of the prefix and truncation",
            reach: &[],
        },
        Contract {
            name: "disk",
            f: disk,
            fns: &[
                "FileContent::save_file", "FileContent::load_file", "FileContent::save_armored",
                "FileContent::load_armored", "UniversalFile::save_file", "UniversalFile::load_file",
            ],
            kani: Kani::No,
            native: "as `files`, in a scratch directory",
            reach: &[],
        },
        Contract {
            name: "armor",
            f: armor,
            fns: &[
                "StrictArmor for Kit", "StrictArmor for Consignment", "Kit::from_str", "Consignment::from_str",
                "UniversalFile::fmt",
            ],
            kani: Kani::No,
            native: "as `files`; every place damaged with 13 characters, every truncation",
            reach: &[],
        },
        Contract {
            name: "identity",
            f: identity,
            fns: &[
                "Kit::commit_encode", "Consignment::commit_encode", "Kit::kit_id", "Consignment::consignment_id",
                "Consignment::into_contract", "Supplement::suppl_id", "IfaceImpl::impl_id", "Iface::iface_id",
            ],
            kani: Kani::No,
            native: "as `files`, 14 changes of kits and 18 of consignments",
            reach: &["different containers", "equal containers", "only the disclosure differs"],
        },
        Contract {
            name: "names",
            f: names,
            fns: &["KitId, ConsignmentId, SupplId, IfaceId, ImplId: to_string, from_str"],
            kani: Kani::No,
            native: "sampled identifiers",
            reach: &[],
        },
        Contract {
            name: "notes",
            f: notes,
            fns: &[
                "Supplement::annotate", "Supplement::annotate_default", "Supplement::annotate_itself",
                "Supplement::get", "Supplement::get_default", "Supplement::get_default_opt",
            ],
            kani: Kani::No,
            native: "up to 4 annotations of 3 subjects, 3 items and 2 names, with and without room",
            reach: &["no room", "replaced"],
        },
    ],
    findings: &[Contract {
        name: "damage",
        f: damage,
        fns: &["Kit::from_str"],
        kani: Kani::No,
        native: "the default kit with one character replaced",
        reach: &[],
    }],
};
