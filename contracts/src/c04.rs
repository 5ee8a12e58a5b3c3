//! C04: invoices survive the URI form and mean the same network.

use std::collections::BTreeSet;
use std::str::FromStr;

use baid64::DisplayBaid64;
use bp::seals::txout::CloseMethod;
use bp::{OutputPk, PubkeyHash, ScriptHash, WPubkeyHash, WScriptHash};
use rgbcore::{AttachId, Layer1, SecretSeal};
use rgbstd::invoice::{
    AddressNetwork, AddressPayload, Allocation, Amount, Beneficiary, ChainNet, InvoiceState,
    Network, NonFungible, Pay2Vout, Pay2VoutError, RgbInvoice, RgbInvoiceBuilder, RgbTransport,
    XChainNet,
};
use strict_encoding::{FieldName, TypeName};

use crate::c01::{POW10, PRECISIONS};
use crate::fx;
use crate::registry::{Contract, Kani, Property};
use crate::src::Src;
use crate::{post, reach};

const NETS: [ChainNet; 6] = [
    ChainNet::BitcoinMainnet,
    ChainNet::BitcoinTestnet,
    ChainNet::BitcoinSignet,
    ChainNet::BitcoinRegtest,
    ChainNet::LiquidMainnet,
    ChainNet::LiquidTestnet,
];
const PREFIX: [&str; 6] = ["bc", "tb", "sb", "bcrt", "lq", "tl"];

fn xnet_of<T>(n: u32, t: T) -> XChainNet<T> {
    match n {
        0 => XChainNet::BitcoinMainnet(t),
        1 => XChainNet::BitcoinTestnet(t),
        2 => XChainNet::BitcoinSignet(t),
        3 => XChainNet::BitcoinRegtest(t),
        4 => XChainNet::LiquidMainnet(t),
        _ => XChainNet::LiquidTestnet(t),
    }
}

fn bytes<const N: usize, S: Src>(s: &mut S) -> [u8; N] {
    let mut b = [0u8; N];
    for x in b.iter_mut() {
        *x = s.u8();
    }
    b
}

/// Networks as tags: no tag is lost or confused.
pub fn xnet<S: Src>(s: &mut S) {
    let n = s.below(6);
    let v = s.u64();
    reach!(s, n == 4, "liquid");
    let x = XChainNet::with(NETS[n as usize], v);
    post!(x == xnet_of(n, v), "network: value is put on the named network");
    post!(x.chain_network() == NETS[n as usize], "network: reported");
    post!(x.into_inner() == v, "network: value is kept");
    let l1 = if n < 4 { Layer1::Bitcoin } else { Layer1::Liquid };
    post!(x.layer1() == l1 && NETS[n as usize].layer1() == l1, "network: layer 1");
    let prod = n == 0 || n == 4;
    post!(x.is_prod() == prod && NETS[n as usize].is_prod() == prod, "network: production");
    let an = match n {
        0 | 4 => AddressNetwork::Mainnet,
        3 => AddressNetwork::Regtest,
        _ => AddressNetwork::Testnet,
    };
    post!(x.address_network() == an, "network: addresses");
    post!(NETS[n as usize].address_network() == an, "network: addresses of the network");
    let (net, want) = match s.below(5) {
        0 => (Network::Mainnet, 0),
        1 => (Network::Testnet3, 1),
        2 => (Network::Testnet4, 1),
        3 => (Network::Signet, 2),
        _ => (Network::Regtest, 3),
    };
    post!(XChainNet::bitcoin(net, v) == xnet_of(want, v), "network: bitcoin networks");
}

/// Prefixes and networks correspond one to one.
fn prefix<S: Src>(s: &mut S) {
    let n = s.below(6) as usize;
    reach!(s, n == 4, "liquid");
    post!(NETS[n].to_string() == PREFIX[n], "prefix: text of the network");
    let upper = s.below(1 << PREFIX[n].len());
    let text: String = PREFIX[n]
        .chars()
        .enumerate()
        .map(|(i, c)| if upper >> i & 1 == 1 { c.to_ascii_uppercase() } else { c })
        .collect();
    post!(ChainNet::from_str(&text).ok() == Some(NETS[n]), "prefix: names its network");
}

fn prefix_text<S: Src>(s: &mut S) {
    const CH: &[u8] = b"bctrslqBxT";
    let len = s.below(6);
    let text: String = (0..len).map(|_| CH[s.below(10) as usize] as char).collect();
    let want = PREFIX.iter().position(|p| *p == text.to_ascii_lowercase()).map(|i| NETS[i]);
    reach!(s, want.is_some(), "known");
    reach!(s, want.is_none(), "unknown");
    post!(ChainNet::from_str(&text).ok() == want, "prefix: other texts are refused");
}

fn address(kind: u32, b: [u8; 32]) -> AddressPayload {
    let mut h = [0u8; 20];
    h.copy_from_slice(&b[..20]);
    match kind {
        0 => AddressPayload::Pkh(PubkeyHash::from(h)),
        1 => AddressPayload::Sh(ScriptHash::from(h)),
        2 => AddressPayload::Wpkh(WPubkeyHash::from(h)),
        _ => AddressPayload::Wsh(WScriptHash::from(b)),
    }
}

fn tr(n: u32) -> Option<OutputPk> {
    // Points of the curve are half of all byte strings
    OutputPk::from_byte_array(fx::b32(n)).ok()
}

/// Byte form of a witness output beneficiary, but for taproot keys.
pub fn payload<S: Src>(s: &mut S) {
    let c = s.below(8);
    let (kind, m) = (c % 4, c / 4);
    let b: [u8; 32] = bytes(s);
    reach!(s, b[0] != 0, "hash");
    let p = Pay2Vout { method: fx::method(m), address: address(kind, b) };
    let data = p.to_baid64_payload();
    let len = if kind == 3 { 32 } else { 20 };
    post!(data[0] == p.method as u8, "payload: method");
    post!(data[1] == 1 + kind as u8, "payload: address type");
    for i in 0..32 {
        post!(data[2 + i] == if i < len { b[i] } else { 0 }, "payload: address bytes");
    }
    post!(Pay2Vout::try_from(data) == Ok(p), "payload: reads back");
}

/// First choice: a known method and address type, or an unknown type.
pub fn payload_known<S: Src>(s: &mut S) {
    let c = s.below(10);
    let mut data: [u8; 34] = bytes(s);
    data[0] = fx::method(c % 2) as u8;
    if c >= 2 {
        data[1] = (c / 2) as u8;
    } else {
        s.assume(data[1] == 0 || data[1] > 5);
    }
    reach!(s, data[2] != 0, "hash");
    read_payload(data);
}

fn payload_data<S: Src>(s: &mut S) {
    let data: [u8; 34] = bytes(s);
    // the curve arithmetic behind taproot keys is evaluated natively
    s.assume(data[1] != 5);
    let known = data[0] == CloseMethod::OpretFirst as u8 || data[0] == CloseMethod::TapretFirst as u8;
    reach!(s, known && data[1] == 4, "valid");
    reach!(s, !known, "unknown method");
    read_payload(data);
}

fn read_payload(data: [u8; 34]) {
    let known = data[0] == CloseMethod::OpretFirst as u8 || data[0] == CloseMethod::TapretFirst as u8;
    match Pay2Vout::try_from(data) {
        Ok(p) => {
            post!(known, "payload: unknown method refused");
            post!(p.method as u8 == data[0], "payload: method read");
            post!(data[1] >= 1 && data[1] <= 4, "payload: unknown address type refused");
            let mut b = [0u8; 32];
            for i in 0..32 {
                b[i] = data[2 + i];
            }
            post!(p.address == address(data[1] as u32 - 1, b), "payload: address read");
        }
        Err(Pay2VoutError::InvalidMethod(m)) => {
            post!(!known && m == data[0], "payload: known method accepted")
        }
        Err(Pay2VoutError::InvalidAddressType(t)) => {
            post!(known && t == data[1] && (t == 0 || t > 4), "payload: known type accepted")
        }
        Err(_) => post!(false, "payload: no key in these types"),
    }
}

fn payload_tr<S: Src>(s: &mut S) {
    let m = s.below(2);
    let n = s.below(200);
    let mut data = [0u8; 34];
    data[0] = fx::method(m) as u8;
    data[1] = 5;
    data[2..].copy_from_slice(&fx::b32(n));
    reach!(s, tr(n).is_some(), "key");
    reach!(s, tr(n).is_none(), "not a key");
    match tr(n) {
        Some(pk) => {
            let p = Pay2Vout { method: fx::method(m), address: AddressPayload::Tr(pk) };
            post!(p.to_baid64_payload() == data, "payload: taproot key");
            post!(Pay2Vout::try_from(data) == Ok(p), "payload: taproot key reads back");
        }
        None => post!(
            matches!(Pay2Vout::try_from(data), Err(Pay2VoutError::InvalidTapkey(_))),
            "payload: not a key"
        ),
    }
}

fn draw_pay2vout<S: Src>(s: &mut S) -> Pay2Vout {
    let method = fx::method(s.below(2));
    let (kind, n) = (s.below(5), s.below(40));
    let address = match (kind, tr(n)) {
        (4, Some(pk)) => AddressPayload::Tr(pk),
        (4, None) => AddressPayload::Tr((n..).find_map(tr).unwrap()),
        _ => address(kind, if n == 0 { [0xff; 32] } else { fx::b32(n) }),
    };
    Pay2Vout { method, address }
}

fn draw_beneficiary<S: Src>(s: &mut S) -> Beneficiary {
    if s.bool() {
        Beneficiary::BlindedSeal(SecretSeal::from(fx::b32(s.below(50))))
    } else {
        Beneficiary::WitnessVout(draw_pay2vout(s))
    }
}

fn beneficiary<S: Src>(s: &mut S) {
    let n = s.below(6);
    let b = draw_beneficiary(s);
    reach!(s, matches!(b, Beneficiary::BlindedSeal(_)), "seal");
    reach!(s, matches!(b, Beneficiary::WitnessVout(_)), "address");
    let x = xnet_of(n, b);
    let text = x.to_string();
    let (head, tail) = text.split_once(':').expect("prefix");
    post!(head == PREFIX[n as usize], "beneficiary: text starts with the network");
    post!(XChainNet::<Beneficiary>::from_str(&text).ok() == Some(x), "beneficiary: reads back");
    let short = text.replace('-', "");
    post!(XChainNet::<Beneficiary>::from_str(&short).ok() == Some(x), "beneficiary: reads back unchunked");
    if let Beneficiary::WitnessVout(p) = b {
        post!(Pay2Vout::from_str(&p.to_string()).ok() == Some(p), "beneficiary: witness output reads back");
        post!(p.to_string() == tail, "beneficiary: text of a witness output");
    }
    // another network: same beneficiary, there
    let o = s.below(6);
    let other = format!("{}:{tail}", PREFIX[o as usize]);
    post!(
        XChainNet::<Beneficiary>::from_str(&other).ok() == Some(xnet_of(o, b)),
        "beneficiary: is on the network of its prefix"
    );
    // no network, an unknown one or a damaged checksum: refused
    post!(XChainNet::<Beneficiary>::from_str(tail).is_err(), "beneficiary: no network");
    post!(XChainNet::<Beneficiary>::from_str(&format!("xx:{tail}")).is_err(), "beneficiary: unknown network");
    let at = text.len() - 1 - s.below(8) as usize;
    let mut damaged = text.clone().into_bytes();
    let c = b"ABab01!$"[s.below(8) as usize];
    if damaged[at] != b'-' && damaged[at] != c {
        damaged[at] = c;
        let damaged = String::from_utf8(damaged).unwrap();
        post!(XChainNet::<Beneficiary>::from_str(&damaged).is_err(), "beneficiary: damaged text is refused");
    }
}

fn draw_state<S: Src>(s: &mut S) -> InvoiceState {
    match s.below(4) {
        0 => InvoiceState::Void,
        1 => InvoiceState::Amount(Amount::from(s.u64())),
        2 => InvoiceState::Data(NonFungible::RGB21(Allocation::with(s.u32(), s.u64()))),
        _ => InvoiceState::Attach(AttachId::from(fx::b32(s.below(50)))),
    }
}

fn state<S: Src>(s: &mut S) {
    let x = draw_state(s);
    reach!(s, matches!(x, InvoiceState::Attach(_)), "attachment");
    let text = x.to_string();
    post!(text.is_empty() == (x == InvoiceState::Void), "state: only no state has no text");
    post!(InvoiceState::from_str(&text).ok() == Some(x.clone()), "state: reads back");
    let y = draw_state(s);
    post!((y.to_string() == text) == (x == y), "state: different states have different texts");
    let bad = ["~", "0", "1@", "@1", "a", "aa@bb", "1@4294967296", "?"][s.below(8) as usize];
    post!(InvoiceState::from_str(bad).is_err(), "state: other text is refused");
}

/// Characters with a meaning in URIs, and others.
const POOL: [char; 48] = [
    'a', 'Z', '0', '9', '-', '_', '.', '~', '%', '4', '1', '+', '&', '=', '?', '#', '/', ':', '@',
    '!', '$', '\'', '(', ')', '*', ';', '[', ']', '<', '>', '"', ' ', '\\', '^', '`', '{', '|',
    '}', '\t', '\n', '\u{0}', '\u{7f}', 'é', '€', '\u{10ffff}', 'e', 'n', ',',
];

fn draw_text<S: Src>(s: &mut S, max: u32, min: u32, pool: u32) -> String {
    let n = min + s.below(max - min + 1);
    (0..n).map(|_| POOL[s.below(pool) as usize]).collect()
}

/// A host is any text but for the list separator.
fn draw_transport<S: Src>(s: &mut S) -> RgbTransport {
    let kind = s.below(7);
    if kind == 6 {
        return RgbTransport::Storm {};
    }
    let tls = kind % 2 == 1;
    let host = draw_text(s, 4, 1, 47);
    match kind / 2 {
        0 => RgbTransport::JsonRpc { tls, host },
        1 => RgbTransport::RestHttp { tls, host },
        _ => RgbTransport::WebSockets { tls, host },
    }
}

fn transport_text(t: &RgbTransport) -> String {
    match t {
        RgbTransport::JsonRpc { tls, host } => format!("rpc{}://{host}", if *tls { "s" } else { "" }),
        RgbTransport::RestHttp { tls, host } => format!("http{}://{host}", if *tls { "s" } else { "" }),
        RgbTransport::WebSockets { tls, host } => format!("ws{}://{host}", if *tls { "s" } else { "" }),
        RgbTransport::Storm {} => "storm://_/".to_owned(),
        _ => String::new(),
    }
}

fn transport<S: Src>(s: &mut S) {
    let t = draw_transport(s);
    reach!(s, matches!(t, RgbTransport::Storm {}), "storm");
    post!(t.to_string() == transport_text(&t), "transport: text");
    post!(RgbTransport::from_str(&t.to_string()) == Ok(t), "transport: reads back");
    let host = draw_text(s, 3, 0, 48);
    let kind = ["rpc", "rpcs", "http", "https", "ws", "wss", "rpca", "", "HTTP", "storms"][s.below(10) as usize];
    let sep = ["://", ":/", "//", ":", ""][s.below(5) as usize];
    let text = format!("{kind}{sep}{host}");
    // a host may supply the rest of the separator
    let good = match text.split_once("://") {
        Some((k, h)) => {
            !h.is_empty() && !h.contains(',') && ["rpc", "rpcs", "http", "https", "ws", "wss"].contains(&k)
        }
        None => false,
    };
    reach!(s, good, "accepted");
    reach!(s, !good && !host.is_empty() && sep == "://", "refused");
    match RgbTransport::from_str(&text) {
        Ok(t) => {
            post!(good, "transport: other text is refused");
            post!(transport_text(&t) == text, "transport: is the one named");
        }
        Err(_) => post!(!good, "transport: known one accepted"),
    }
}

const IFACES: [&str; 3] = ["RGB20", "A", "Iface1Long"];
const NAMES: [&str; 3] = ["transfer", "a", "_x1"];

pub fn draw_invoice<S: Src>(s: &mut S) -> RgbInvoice {
    let mut i = RgbInvoiceBuilder::new(xnet_of(s.below(6), draw_beneficiary(s))).finish();
    // a contract is named together with its interface
    if s.bool() {
        i.iface = Some(TypeName::from(IFACES[s.below(3) as usize]));
        if s.bool() {
            i.contract = Some(fx::contract_id(s.below(20)));
        }
    }
    if s.bool() {
        i.operation = Some(FieldName::from(NAMES[s.below(3) as usize]));
    }
    if s.bool() {
        i.assignment = Some(FieldName::from(NAMES[s.below(3) as usize]));
    }
    i.owned_state = draw_state(s);
    if s.bool() {
        i.expiry = Some(s.u64() as i64);
    }
    let n = s.below(4);
    if n > 0 {
        i.transports = (0..n).map(|_| draw_transport(s)).collect();
    }
    for _ in 0..s.below(3) {
        let (k, v) = (draw_text(s, 4, 0, 48), draw_text(s, 4, 0, 48));
        if k != "expiry" && k != "endpoints" {
            i.unknown_query.insert(k, v);
        }
    }
    i
}

fn same(a: &RgbInvoice, b: &RgbInvoice) -> bool {
    a == b && a.unknown_query.iter().eq(b.unknown_query.iter())
}

fn uri<S: Src>(s: &mut S) {
    let i = draw_invoice(s);
    reach!(s, i.operation.is_some() && i.assignment.is_none(), "operation only");
    reach!(s, i.operation.is_none() && i.assignment.is_some(), "assignment only");
    reach!(s, i.unknown_query.len() == 2 && i.transports.len() > 1, "query");
    let text = i.to_string();
    match RgbInvoice::from_str(&text) {
        Ok(j) => {
            post!(j.beneficiary == i.beneficiary, "invoice: beneficiary reads back");
            post!(j.contract == i.contract && j.iface == i.iface, "invoice: contract and interface read back");
            post!(
                j.operation == i.operation && j.assignment == i.assignment,
                "invoice: operation and assignment read back"
            );
            post!(j.owned_state == i.owned_state, "invoice: state reads back");
            post!(j.expiry == i.expiry, "invoice: expiry reads back");
            post!(j.transports == i.transports, "invoice: transports read back");
            post!(same(&i, &j), "invoice: query reads back");
        }
        Err(_) => post!(false, "invoice: its text is accepted"),
    }
    let short = format!("{i:#}");
    match RgbInvoice::from_str(&short) {
        Ok(j) => post!(same(&i, &j), "invoice: unchunked text reads back"),
        Err(_) => post!(false, "invoice: its unchunked text is accepted"),
    }
    post!(i.chain_network() == i.beneficiary.chain_network(), "invoice: network");
    post!(i.layer1() == i.beneficiary.layer1(), "invoice: layer 1");
    post!(i.is_prod() == i.beneficiary.is_prod(), "invoice: production");
    post!(i.address_network() == i.beneficiary.address_network(), "invoice: address network");
}

/// Different invoices have different texts: one part is exchanged.
fn distinct<S: Src>(s: &mut S) {
    let i = draw_invoice(s);
    let o = draw_invoice(s);
    let mut j = i.clone();
    match s.below(6) {
        0 => j.beneficiary = o.beneficiary,
        1 => j.owned_state = o.owned_state,
        2 => j.expiry = o.expiry,
        3 => j.transports = o.transports,
        4 => j.unknown_query = o.unknown_query,
        _ => (j.operation, j.assignment) = (o.operation, o.assignment),
    }
    reach!(s, same(&i, &j), "equal");
    reach!(s, !same(&i, &j), "different");
    post!((i.to_string() == j.to_string()) == same(&i, &j), "invoice: text tells invoices apart");
}

fn malformed<S: Src>(s: &mut S) {
    let mut i = draw_invoice(s);
    if i.unknown_query.is_empty() && i.expiry.is_none() {
        i.expiry = Some(5);
    }
    let text = i.to_string();
    let (path, query) = text.split_once('?').expect("query");
    let mut seg: Vec<String> = path.split('/').map(str::to_owned).collect();
    let last = seg.len() - 1;
    let kind = s.below(16);
    let join = |seg: &[String]| format!("{}?{query}", seg.join("/"));
    let bad = match kind {
        0 => text[4..].to_owned(),
        1 => format!("xgb{}", &text[3..]),
        2 => format!("rgb:/{}", &text[4..]),
        3 => format!("rgb://{}", &text[4..]),
        4 => seg[..last].join("/"),
        5 => seg[0].clone(),
        6 => {
            seg.push("x".to_owned());
            join(&seg)
        }
        7 => {
            seg[0] = "rgb:invalid".to_owned();
            join(&seg)
        }
        8 => {
            seg[1] = "1x".to_owned();
            join(&seg)
        }
        9 => {
            let b = seg[last].rsplit('+').next().unwrap().to_owned();
            seg[last] = format!("1x+{b}");
            join(&seg)
        }
        10 => {
            seg[last].push('A');
            join(&seg)
        }
        11 => format!("{path}?expiry=six"),
        12 => format!("{path}?expiry"),
        13 => format!("{path}?endpoints="),
        14 => format!("{path}?endpoints=bad"),
        _ => format!("{path}?a=%2"),
    };
    reach!(s, kind == 6, "extra segment");
    post!(RgbInvoice::from_str(&bad).is_err(), "invoice: malformed text is refused");
}

/// Whatever is accepted means what it prints.
fn mutated<S: Src>(s: &mut S) {
    let i = draw_invoice(s);
    let mut text = i.to_string().into_bytes();
    const CH: &[u8] = b"aZ0/~+?&=%:#@-!.";
    for _ in 0..1 + s.below(2) {
        let at = s.u32() as usize % text.len();
        let c = CH[s.below(16) as usize];
        match s.below(3) {
            0 => text[at] = c,
            1 => text.insert(at, c),
            _ => {
                text.remove(at);
            }
        }
    }
    let text = String::from_utf8(text).unwrap();
    let got = RgbInvoice::from_str(&text).ok();
    reach!(s, got.is_some(), "accepted");
    reach!(s, got.is_none(), "refused");
    if let Some(j) = got {
        let again = RgbInvoice::from_str(&j.to_string()).ok();
        post!(again.as_ref().is_some_and(|k| same(k, &j)), "invoice: accepted text prints as an equal invoice");
    }
}

/// The builder sets what it is asked to set and nothing else.
fn builder<S: Src>(s: &mut S) {
    let b = xnet_of(s.below(6), draw_beneficiary(s));
    let c = fx::contract_id(s.below(5));
    let how = s.below(4);
    let mut x = match how {
        0 => RgbInvoiceBuilder::new(b),
        1 => RgbInvoiceBuilder::with(c, b),
        2 => RgbInvoiceBuilder::rgb20(c, b),
        _ => RgbInvoiceBuilder::rgb20_anything(b),
    };
    let mut contract = (how == 1 || how == 2).then_some(c);
    let mut iface = (how >= 2).then(|| TypeName::from("RGB20"));
    let (mut op, mut asn, mut exp) = (None, None, None);
    let mut st = InvoiceState::Void;
    let mut tr: Vec<RgbTransport> = vec![];
    for _ in 0..s.below(4) {
        match s.below(10) {
            0 => {
                let c = fx::contract_id(s.below(5));
                x = x.set_contract(c);
                contract = Some(c);
            }
            1 => {
                let n = IFACES[s.below(3) as usize];
                x = x.set_interface(n);
                iface = Some(TypeName::from(n));
            }
            2 => {
                let n = NAMES[s.below(3) as usize];
                x = x.set_operation(n);
                op = Some(FieldName::from(n));
            }
            3 => {
                let n = NAMES[s.below(3) as usize];
                x = x.set_assignment(n);
                asn = Some(FieldName::from(n));
            }
            4 => {
                let e = s.u64() as i64;
                x = x.set_expiry_timestamp(e);
                exp = Some(e);
            }
            5 => {
                let a = s.u64();
                x = x.set_amount_raw(a);
                st = InvoiceState::Amount(Amount::from(a));
            }
            6 => {
                let (t, f) = (s.u32(), s.u64());
                x = if s.bool() {
                    x.set_allocation_raw(Allocation::with(t, f))
                } else {
                    x.set_allocation(t, f).expect("any allocation")
                };
                st = InvoiceState::Data(NonFungible::RGB21(Allocation::with(t, f)));
            }
            7 => {
                let t = draw_transport(s);
                x = if s.bool() {
                    x.add_transport_raw(t.clone())
                } else {
                    match x.add_transport(&transport_text(&t)) {
                        Ok(x) => x,
                        Err(_) => return post!(false, "builder: transport accepted"),
                    }
                };
                tr.push(t);
            }
            8 => {
                let l: Vec<_> = (0..s.below(3)).map(|_| draw_transport(s)).collect();
                let texts: Vec<_> = l.iter().map(transport_text).collect();
                x = if s.bool() {
                    x.add_transports_raw(l.clone())
                } else {
                    match x.add_transports(texts.iter().map(String::as_str)) {
                        Ok(x) => x,
                        Err(_) => return post!(false, "builder: transports accepted"),
                    }
                };
                tr.extend(l);
            }
            _ => {
                let bad = ["", "bad", "rpc://"][s.below(3) as usize];
                x = if s.bool() {
                    match x.add_transport(bad) {
                        Err((x, _)) => x,
                        Ok(_) => return post!(false, "builder: bad transport refused"),
                    }
                } else {
                    match x.add_transports(["rpc://a", bad]) {
                        Err((x, _)) => x,
                        Ok(_) => return post!(false, "builder: bad transports refused"),
                    }
                };
            }
        }
    }
    reach!(s, tr.len() > 1, "transports");
    if tr.is_empty() {
        tr.push(RgbTransport::UnspecifiedMeans);
    }
    let i = x.finish();
    post!(i.beneficiary == b, "builder: beneficiary");
    post!(i.contract == contract, "builder: contract");
    post!(i.iface == iface, "builder: interface");
    post!(i.operation == op, "builder: operation");
    post!(i.assignment == asn, "builder: assignment");
    post!(i.owned_state == st, "builder: state");
    post!(i.expiry == exp, "builder: expiry");
    post!(i.transports == tr, "builder: transports");
    post!(i.unknown_query.is_empty(), "builder: nothing unknown");
}

fn builder_amount<S: Src>(s: &mut S) {
    let p = s.below(19) as usize;
    let (int, fract) = match s.below(3) {
        0 => (s.u64(), s.u64()),
        1 => (s.u64() % 1000, s.u64() % POW10[p]),
        _ => ((u64::MAX / POW10[p]).saturating_add(s.below(3) as u64 % 2), s.u64() % POW10[p]),
    };
    let want = (int as u128) * (POW10[p] as u128) + fract as u128;
    let fits = want <= u64::MAX as u128 && fract < POW10[p];
    reach!(s, fits, "fits");
    reach!(s, want > u64::MAX as u128 && fract < POW10[p], "does not fit");
    let b = RgbInvoiceBuilder::new(xnet_of(0, Beneficiary::BlindedSeal(SecretSeal::from(fx::b32(1)))))
        .set_amount_raw(7u64);
    match b.clone().set_amount(int, fract, PRECISIONS[p]) {
        Ok(x) => {
            post!(fits, "builder: amount which does not fit is refused");
            let st = x.finish().owned_state;
            post!(st == InvoiceState::Amount(Amount::from(want as u64)), "builder: amount in smallest units");
        }
        Err(x) => {
            post!(!fits, "builder: amount which fits is accepted");
            post!(x == b, "builder: refused amount changes nothing");
        }
    }
}

fn builder_approx<S: Src>(s: &mut S) {
    let p = s.below(19) as usize;
    let b = RgbInvoiceBuilder::new(xnet_of(0, Beneficiary::BlindedSeal(SecretSeal::from(fx::b32(1)))));
    // quarters are exact in binary, hundredths of them in decimal
    let int = s.u32() as u64 % 1_000_000;
    let q = s.below(4) as u64;
    let (amount, want) = match s.below(8) {
        0 => (f64::NAN, None),
        1 => (f64::INFINITY, None),
        2 => (-1.5, None),
        3 => (1e30, None),
        _ => {
            let v = int as f64 + q as f64 / 4.0;
            let units = int as u128 * POW10[p] as u128 + (q * POW10[p] / 4) as u128;
            (v, if v <= 0.0 { None } else { u64::try_from(units).ok() })
        }
    };
    reach!(s, want.is_some() && q != 0 && p > 1, "fraction");
    reach!(s, amount.is_nan(), "not a number");
    let got = match unsafe { b.set_amount_approx(amount, PRECISIONS[p]) } {
        Ok(x) => Some(x.finish().owned_state),
        Err(_) => None,
    };
    post!(
        got == want.map(|v| InvoiceState::Amount(Amount::from(v))),
        "builder: approximate amount keeps its fraction, or is refused"
    );
}

fn prefixes_distinct<S: Src>(s: &mut S) {
    let set: BTreeSet<_> = NETS.iter().map(ChainNet::to_string).collect();
    reach!(s, true, "all");
    post!(set.len() == NETS.len(), "prefix: one per network");
}

#[cfg(kani)]
mod k {
    crate::proof!([kani::unwind(3)] xnet = super::xnet []);
    crate::proof_split!([kani::unwind(35)] payload : 0 1 2 3 4 5 6 7);
    crate::proof_split!([kani::unwind(35)] payload_known : 0 1 2 3 4 5 6 7 8 9);
}

pub const PROPERTY: Property = Property {
    id: "C04",
    module: "c04",
    contracts: &[
        Contract {
            name: "xnet",
            f: xnet,
            fns: &[
                "XChainNet::with",
                "XChainNet::bitcoin",
                "XChainNet::chain_network",
                "XChainNet::into_inner",
                "ChainNet::layer1",
                "ChainNet::is_prod",
                "ChainNet::address_network",
            ],
            kani: Kani::Full,
            native: "all networks, boundary table of values",
            reach: &["liquid"],
        },
        Contract {
            name: "prefix",
            f: prefix,
            fns: &["ChainNet::fmt", "ChainNet::from_str"],
            kani: Kani::No,
            native: "all networks in all letter cases (complete)",
            reach: &["liquid"],
        },
        Contract {
            name: "prefixes_distinct",
            f: prefixes_distinct,
            fns: &["ChainNet::fmt"],
            kani: Kani::No,
            native: "all networks (complete)",
            reach: &["all"],
        },
        Contract {
            name: "prefix_text",
            f: prefix_text,
            fns: &["ChainNet::from_str"],
            kani: Kani::No,
            native: "texts of up to 5 of 10 letters (enumerated)",
            reach: &["known", "unknown"],
        },
        Contract {
            name: "payload",
            f: payload,
            fns: &["Pay2Vout::to_baid64_payload", "Pay2Vout::try_from"],
            kani: Kani::Split(8),
            native: "boundary table and seeded sample",
            reach: &["hash"],
        },
        Contract {
            name: "payload_known",
            f: payload_known,
            fns: &["Pay2Vout::try_from"],
            kani: Kani::Split(10),
            native: "boundary table and seeded sample",
            reach: &["hash"],
        },
        Contract {
            name: "payload_data",
            f: payload_data,
            fns: &["Pay2Vout::try_from"],
            kani: Kani::No,
            native: "boundary table and seeded sample",
            reach: &["valid", "unknown method"],
        },
        Contract {
            name: "payload_tr",
            f: payload_tr,
            fns: &["Pay2Vout::to_baid64_payload", "Pay2Vout::try_from"],
            kani: Kani::No,
            native: "200 byte strings, both methods (complete)",
            reach: &["key", "not a key"],
        },
        Contract {
            name: "beneficiary",
            f: beneficiary,
            fns: &["XChainNet<Beneficiary>::fmt", "XChainNet<Beneficiary>::from_str", "Pay2Vout::fmt", "Pay2Vout::from_str"],
            kani: Kani::No,
            native: "all networks and address types, sampled keys",
            reach: &["seal", "address"],
        },
        Contract {
            name: "state",
            f: state,
            fns: &["InvoiceState::fmt", "InvoiceState::from_str"],
            kani: Kani::No,
            native: "all kinds, sampled values",
            reach: &["attachment"],
        },
        Contract {
            name: "transport",
            f: transport,
            fns: &["RgbTransport::fmt", "RgbTransport::from_str"],
            kani: Kani::No,
            native: "all kinds, hosts of up to 4 of 48 characters, sampled",
            reach: &["storm", "accepted", "refused"],
        },
        Contract {
            name: "uri",
            f: uri,
            fns: &["RgbInvoice::fmt", "RgbInvoice::from_str", "RgbInvoice::query_params", "map_query_params"],
            kani: Kani::No,
            native: "all part combinations, query texts of up to 4 of 48 characters, sampled",
            reach: &["operation only", "assignment only", "query"],
        },
        Contract {
            name: "distinct",
            f: distinct,
            fns: &["RgbInvoice::fmt"],
            kani: Kani::No,
            native: "pairs of invoices which differ in one part, sampled",
            reach: &["equal", "different"],
        },
        Contract {
            name: "malformed",
            f: malformed,
            fns: &["RgbInvoice::from_str"],
            kani: Kani::No,
            native: "16 kinds of damage on sampled invoices",
            reach: &["extra segment"],
        },
        Contract {
            name: "mutated",
            f: mutated,
            fns: &["RgbInvoice::from_str", "RgbInvoice::fmt"],
            kani: Kani::No,
            native: "one or two character edits of sampled invoices",
            reach: &["accepted", "refused"],
        },
        Contract {
            name: "builder",
            f: builder,
            fns: &["RgbInvoiceBuilder: all setters", "RgbInvoiceBuilder::finish"],
            kani: Kani::No,
            native: "up to 3 calls, sampled arguments",
            reach: &["transports"],
        },
        Contract {
            name: "builder_amount",
            f: builder_amount,
            fns: &["RgbInvoiceBuilder::set_amount", "CoinAmount::to_amount_unchecked"],
            kani: Kani::No,
            native: "all precisions, boundary table and seeded sample of the parts",
            reach: &["fits", "does not fit"],
        },
        Contract {
            name: "builder_approx",
            f: builder_approx,
            fns: &["RgbInvoiceBuilder::set_amount_approx"],
            kani: Kani::No,
            native: "all precisions, quarters of sampled integers",
            reach: &["fraction", "not a number"],
        },
    ],
    findings: &[],
};
