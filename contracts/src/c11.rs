//! C11: trust is never invented, signatures are kept unless by a malicious identity.

use std::collections::BTreeMap;
use std::str::FromStr;

use amplify::confinement::Confined;
use bp::seals::txout::CloseMethod;
use rgbcore::Identity;
use rgbstd::containers::{ConsignmentExt, ContentId, ContentRef, ContentSigs, SigBlob, Supplement, TrustLevel};
use rgbstd::persistence::{MemStash, StashReadProvider, StashWriteProvider};
use strict_encoding::StrictDumb;

use crate::registry::{Contract, Kani, Property};
use crate::src::Src;
use crate::{fx, post, reach, world};

const LEVELS: [TrustLevel; 5] = [
    TrustLevel::Malicious,
    TrustLevel::Unknown,
    TrustLevel::Untrusted,
    TrustLevel::Trusted,
    TrustLevel::Ultimate,
];

fn levels<S: Src>(s: &mut S) {
    let (i, j) = (s.below(5) as usize, s.below(5) as usize);
    let l = LEVELS[i];
    reach!(s, i == 0, "malicious");
    reach!(s, i == 3, "trusted");
    post!(l.should_accept() == (i != 0), "level: everybody but the malicious accepted");
    post!(l.should_use() == (i >= 3), "level: only the trusted used");
    post!(l.must_use() == (i == 4), "level: only the ultimate always used");
    post!(!l.must_use() || l.should_use(), "level: what must be used is used");
    post!(!l.should_use() || l.should_accept(), "level: what is used is accepted");
    post!(l.cmp(&LEVELS[j]) == i.cmp(&j), "level: ordered by trust");
    post!((l == LEVELS[j]) == (i == j), "level: distinct");
    post!(TrustLevel::default() == TrustLevel::Unknown, "level: nobody rated by default");
}

fn codes<S: Src>(s: &mut S) {
    let b = s.below(256) as u8;
    reach!(s, b == 0x80, "trusted");
    reach!(s, b == 0, "zero");
    let l = TrustLevel::try_from(b).ok();
    post!(
        l == LEVELS.iter().copied().find(|l| u8::from(*l) == b),
        "level: decoded from its own byte only"
    );
    if let Some(l) = l {
        let name = ["malicious", "unknown", "untrusted", "trusted", "ultimate"];
        let at = LEVELS.iter().position(|x| *x == l).unwrap();
        post!(l.to_string() == name[at], "level: printed");
    }
}

fn who(n: u32) -> Identity { Identity::from_str(&format!("id{n}@example.com")).unwrap() }
fn sig(n: u32) -> SigBlob { SigBlob::from(Confined::try_from(vec![n as u8, 1]).unwrap()) }
fn content(n: u32) -> ContentId {
    match n {
        0 => ContentId::Schema(StrictDumb::strict_dumb()),
        1 => ContentId::Genesis(fx::contract_id(0)),
        _ => ContentId::Genesis(fx::contract_id(1)),
    }
}

type Sigs = BTreeMap<u32, BTreeMap<Identity, SigBlob>>;

/// What has to be known after signatures came with a content; `None` when they do not all fit.
fn model(
    rated: &BTreeMap<Identity, TrustLevel>,
    prev: &BTreeMap<Identity, SigBlob>,
    new: &[(Identity, SigBlob)],
) -> (BTreeMap<Identity, SigBlob>, bool) {
    let mut all = prev.clone();
    for (id, sig) in new {
        if rated.get(id) != Some(&TrustLevel::Malicious) {
            all.insert(id.clone(), sig.clone());
        }
    }
    let fits = all.len() < 10;
    (all, fits)
}

fn sigs<S: Src>(s: &mut S) {
    let mut stash = MemStash::in_memory();
    let mut rated = BTreeMap::<Identity, TrustLevel>::new();
    let mut known = Sigs::new();
    for step in 0..1 + s.below(4) {
        if s.bool() {
            let (n, l) = (s.below(3), LEVELS[s.below(5) as usize]);
            stash.set_trust(who(n), l).unwrap();
            rated.insert(who(n), l);
        } else {
            let c = s.below(3);
            let many = s.below(4) == 3;
            let n = if many { 5 + s.below(8) } else { s.below(4) };
            let off = if many { s.below(6) } else { 0 };
            let new = (0..n)
                .map(|i| {
                    let w = if many { off + i } else { s.below(4) };
                    (who(w), sig(10 * step + w))
                })
                .collect::<Vec<_>>();
            let bad = new.iter().filter(|x| rated.get(&x.0) == Some(&TrustLevel::Malicious)).count();
            reach!(s, bad > 0 && bad < new.len(), "some malicious");
            reach!(s, bad > 0 && bad == new.len(), "all malicious");
            let prev = known.get(&c).cloned().unwrap_or_default();
            reach!(s, !prev.is_empty() && n > 0, "content with signatures");
            let r = stash.import_sigs(content(c), new.clone());
            let (all, fits) = model(&rated, &prev, &new);
            let got = stash
                .sigs_for(&content(c))
                .unwrap()
                .map(|x| x.iter().map(|(i, s)| (i.clone(), s.clone())).collect::<BTreeMap<_, _>>())
                .unwrap_or_default();
            if fits {
                post!(got == all, "signatures: exactly those by identities not malicious");
                post!(r.is_ok() || all.is_empty(), "signatures: stored without error");
            } else {
                reach!(s, true, "too many signatures");
                post!(
                    prev.keys().all(|i| got.contains_key(i)),
                    "signatures: none stored before is lost"
                );
                post!(
                    got.iter().all(|(i, x)| prev.get(i) == Some(x)
                        || new.contains(&(i.clone(), x.clone())) && all.contains_key(i)),
                    "signatures: no other stored"
                );
                post!(got.len() == all.len() || r.is_err(), "signatures: what did not fit is told");
            }
            if got.is_empty() {
                known.remove(&c);
            } else {
                known.insert(c, got);
            }
            // a signature rates nobody
        }
        for n in 0..5 {
            let l = stash.get_trust(&who(n)).unwrap();
            post!(
                l == rated.get(&who(n)).copied().unwrap_or(TrustLevel::Unknown),
                "trust: as rated by the user, unknown otherwise"
            );
        }
        for c in 0..3 {
            let got = stash
                .sigs_for(&content(c))
                .unwrap()
                .map(|x| x.iter().map(|(i, s)| (i.clone(), s.clone())).collect::<BTreeMap<_, _>>());
            post!(got.as_ref() == known.get(&c), "signatures: other contents untouched");
        }
    }
}

/// Signatures and supplements travel with a contract from one stock to another.
fn carry<S: Src>(s: &mut S) {
    thread_local!(static MADE: rgbstd::containers::ValidContract =
        world::issue(0, 0, &[world::Coin { kind: 0, seal: 0, value: 1 }], CloseMethod::OpretFirst));
    let contract = MADE.with(|c| c.clone());
    let id = contract.contract_id();
    let k = world::kinds(0);
    let ids = [
        ContentId::Genesis(id),
        ContentId::Schema(k.schema.schema_id()),
        ContentId::Iface(k.iface.iface_id()),
        ContentId::IfaceImpl(k.iimpl.impl_id()),
        ContentId::Genesis(fx::contract_id(1)),
    ];
    let refs = [
        ContentRef::Genesis(id),
        ContentRef::Schema(k.schema.schema_id()),
        ContentRef::Iface(k.iface.iface_id()),
        ContentRef::IfaceImpl(k.iimpl.impl_id()),
        ContentRef::Genesis(fx::contract_id(1)),
    ];
    let mut kit = world::kit(0).into_kit();
    let mut rated = BTreeMap::new();
    let bad = s.below(4);
    for i in 0..5u32 {
        let n = s.below(3);
        if n > 0 {
            let v = (0..n).map(|j| (who((i + j) % 3), sig(10 * i + j))).collect::<BTreeMap<_, _>>();
            let v = ContentSigs::from(Confined::try_from(v).unwrap());
            kit.signatures.insert(ids[i as usize], v).unwrap();
        }
    }
    let mut suppl = vec![];
    for i in 0..5 {
        if s.bool() {
            let mut x = Supplement::new(refs[i], who(i as u32));
            x.timestamp = i as i64;
            kit.supplements.push(x.clone()).unwrap();
            suppl.push((i, x));
        }
    }
    let given = kit.signatures.clone();
    let mut a = world::stock();
    if bad < 3 {
        a.as_stash_provider_mut().set_trust(who(bad), TrustLevel::Malicious).unwrap();
        rated.insert(who(bad), TrustLevel::Malicious);
    }
    a.import_kit(kit.validate().unwrap_or_else(|_| panic!("kit"))).unwrap();
    let mut want = BTreeMap::new();
    for (i, x) in given.iter() {
        let new = x.iter().map(|(i, s)| (i.clone(), s.clone())).collect::<Vec<_>>();
        let (all, _) = model(&rated, &BTreeMap::new(), &new);
        if !all.is_empty() {
            want.insert(*i, all);
        }
    }
    let plain = |x: &ContentSigs| x.iter().map(|(i, s)| (i.clone(), s.clone())).collect::<BTreeMap<_, _>>();
    for i in &ids {
        let got = a.as_stash_provider().sigs_for(i).unwrap().map(plain);
        post!(got.as_ref() == want.get(i), "kit: signatures stored with their content");
    }
    reach!(s, want.len() < given.len(), "a content signed by the malicious only");
    reach!(s, want.len() == 5, "everything signed");
    a.import_contract(contract, &world::Chain::default()).unwrap();
    let out = a.export_contract(id).unwrap();
    for (n, i) in ids.iter().enumerate() {
        let got = out.signatures.get(i).map(plain);
        let exp = if n < 4 { want.get(i) } else { None };
        post!(got.as_ref() == exp, "contract: carries the signatures of its own parts");
    }
    let got = out.supplements.iter().cloned().collect::<Vec<_>>();
    for (n, x) in &suppl {
        post!(got.contains(x) == (*n < 4), "contract: carries the supplements of its own parts");
    }
    post!(
        got.len() == suppl.iter().filter(|(n, _)| *n < 4).count(),
        "contract: no other supplement"
    );
    // a second party rates the identities on its own
    let mut b = world::stock();
    let other = s.below(4);
    let mut rated = BTreeMap::new();
    if other < 3 {
        b.as_stash_provider_mut().set_trust(who(other), TrustLevel::Malicious).unwrap();
        rated.insert(who(other), TrustLevel::Malicious);
    }
    let valid = out.validate(&world::Chain::default(), true).unwrap_or_else(|_| panic!("valid"));
    b.import_contract(valid, &world::Chain::default()).unwrap();
    for i in &ids[..4] {
        let exp = want.get(i).map(|x| {
            let new = x.iter().map(|(i, s)| (i.clone(), s.clone())).collect::<Vec<_>>();
            model(&rated, &BTreeMap::new(), &new).0
        });
        let got = b.as_stash_provider().sigs_for(i).unwrap().map(plain).unwrap_or_default();
        post!(got == exp.unwrap_or_default(), "contract: signatures stored by the second party");
    }
    for (n, x) in &suppl {
        let got = b.as_stash_provider().supplements(refs[*n]).unwrap().any(|y| y == *x);
        post!(got == (*n < 4), "contract: supplements stored by the second party");
    }
}

pub const PROPERTY: Property = Property {
    id: "C11",
    module: "c11",
    contracts: &[
        Contract {
            name: "levels",
            f: levels,
            fns: &["TrustLevel::should_accept", "TrustLevel::should_use", "TrustLevel::must_use", "TrustLevel::cmp", "TrustLevel::default"],
            kani: Kani::Full,
            native: "all pairs of levels (exhaustive)",
            reach: &["malicious", "trusted"],
        },
        Contract {
            name: "codes",
            f: codes,
            fns: &["TrustLevel::try_from(u8)", "u8::from(TrustLevel)", "TrustLevel::fmt"],
            kani: Kani::No,
            native: "all bytes (exhaustive)",
            reach: &["trusted", "zero"],
        },
        Contract {
            name: "sigs",
            f: sigs,
            fns: &["MemStash::set_trust", "MemStash::get_trust", "MemStash::import_sigs", "MemStash::sigs_for"],
            kani: Kani::No,
            native: "up to 4 updates on 3 contents, up to 12 identities and signatures",
            reach: &["some malicious", "all malicious", "content with signatures", "too many signatures"],
        },
        Contract {
            name: "carry",
            f: carry,
            fns: &[
                "Stash::consume_kit", "Stash::consume_consignment", "Stock::import_kit", "Stock::export_contract",
                "Stock::consign", "Stock::import_contract", "MemStash::add_supplement", "MemStash::supplement",
                "MemStash::supplements",
            ],
            kani: Kani::No,
            native: "signatures by up to 2 of 3 identities on 5 contents, one supplement each, every identity malicious for either party",
            reach: &["a content signed by the malicious only", "everything signed"],
        },
    ],
    findings: &[],
};

#[cfg(kani)]
mod k {
    crate::proof!([kani::unwind(3)] levels = super::levels []);
}
