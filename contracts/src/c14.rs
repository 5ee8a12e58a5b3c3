//! C14: builders put everything asked for into the operation, and nothing else.
//# assumes: interface implementations bind names to types existing in the schema

use amplify::Wrapper as _;
use bp::seals::txout::CloseMethod;
use commit_verify::Conceal;
use rgbcore::{
    AltLayer1, Assign, AssetTag, BlindingFactor, GenesisSeal, GraphSeal, Identity, Layer1, Opout, Operation,
    RevealedData, TransitionType, TypedAssigns, XChain,
};
use rgbstd::containers::BuilderSeal;
use rgbstd::invoice::Amount;
use rgbstd::interface::{BuilderError, ContractBuilder, TransitionBuilder};
use rgbstd::persistence::{PersistedState, Stock};
use strict_encoding::StrictSerialize;

use crate::fx;
use crate::registry::{Contract, Kani, Property};
use crate::src::Src;
use crate::world::{self, kinds, KINDS};
use crate::{post, reach};

const FIELDS: [&str; 6] =
    ["assetOwner", "tokenOwner", "updateRight", "fileOwner", "bonusOwner", "nobody"];

fn genesis_seal(n: u32) -> BuilderSeal<GenesisSeal> {
    let s = GenesisSeal::with_blinding(CloseMethod::OpretFirst, fx::txid(n % 2), 0u32, 1);
    match n {
        0 | 1 => BuilderSeal::Revealed(XChain::Bitcoin(s)),
        2 => BuilderSeal::Concealed(XChain::Bitcoin(s.conceal())),
        _ => BuilderSeal::Revealed(XChain::Liquid(s)),
    }
}
fn transition_seal(n: u32) -> BuilderSeal<GraphSeal> {
    match n {
        0 => BuilderSeal::Revealed(world::graph(1, 1)),
        1 => BuilderSeal::Revealed(world::graph(2, 1)),
        2 => BuilderSeal::Concealed(XChain::Bitcoin(fx::graph_seal(0, 1).conceal())),
        _ => BuilderSeal::Revealed(XChain::Liquid(fx::graph_seal(0, 1))),
    }
}

/// What was added: (type, seal, state without the blinding), and for amounts the
/// blinding.
#[derive(Default)]
struct Model {
    tags: std::collections::BTreeMap<u16, AssetTag>,
    auto: Vec<u16>,
    assigns: Vec<(u16, String, String)>,
    blinded: Vec<(u16, String, u64, BlindingFactor)>,
    globals: Vec<(u16, Vec<u8>)>,
    meta: Vec<(u16, Vec<u8>)>,
    inputs: Vec<(Opout, BlindingFactor, bool)>,
}

fn bytes(v: &impl StrictSerialize) -> Vec<u8> { v.to_strict_serialized::<0xFFFF>().unwrap().release() }

/// The assignments of an operation in the form of the model.
#[allow(clippy::type_complexity)]
fn read<L: rgbcore::ExposedSeal>(
    a: &rgbcore::Assignments<L>,
) -> (Vec<(u16, String, String)>, Vec<(u16, String, u64, BlindingFactor)>) {
    fn seal<St: rgbcore::ExposedState, L: rgbcore::ExposedSeal>(a: &Assign<St, L>) -> (String, St) {
        match a {
            Assign::Revealed { seal, state, .. } => {
                (format!("{:?}", BuilderSeal::<L>::Revealed(*seal)), state.clone())
            }
            Assign::ConfidentialSeal { seal, state, .. } => {
                (format!("{:?}", BuilderSeal::<L>::Concealed(*seal)), state.clone())
            }
            _ => panic!("builders do not conceal state"),
        }
    }
    let mut out = vec![];
    let mut bl = vec![];
    for (ty, t) in a.iter() {
        let ty = ty.into_inner();
        match t {
            TypedAssigns::Declarative(v) => {
                out.extend(v.iter().map(|a| (ty, seal(a).0, "right".to_owned())))
            }
            TypedAssigns::Fungible(v) => {
                for a in v.iter() {
                    let (l, st) = seal(a);
                    out.push((ty, l.clone(), format!("{:?}/{:?}", st.value, st.tag)));
                    let rgbcore::FungibleState::Bits64(x) = st.value;
                    bl.push((ty, l, x, st.blinding));
                }
            }
            TypedAssigns::Structured(v) => out.extend(v.iter().map(|a| {
                let (l, st) = seal(a);
                (ty, l, format!("{:?}", st.value))
            })),
            TypedAssigns::Attachment(v) => out.extend(v.iter().map(|a| {
                let (l, st) = seal(a);
                (ty, l, format!("{:?}/{:?}", st.file, st.rand_()))
            })),
        }
    }
    out.sort();
    (out, bl)
}

trait AttachExt {
    fn rand_(&self) -> u64;
}
impl AttachExt for rgbcore::RevealedAttach {
    fn rand_(&self) -> u64 { self.salt }
}

/// Adds something drawn to the builder. `None` when the addition was refused.
macro_rules! act {
    ($s:ident, $m:ident, $b:ident, $seal:path, $genesis:expr, $liquid:expr) => {{
        let wrong = $s.below(10) == 9;
        let what = $s.below(6);
        let sl = $s.below(3 + (wrong as u32));
        let seal = $seal(sl);
        let refuse_seal = $genesis && sl == 3 && !$liquid;
        let lseal = format!("{seal:?}");
        match what {
            // asset tag
            0 => {
                let k = if wrong { 5 } else { [0usize, 4][$s.below(2) as usize] };
                let tag = world::tag($s.below(3));
                if k != 5 && $m.tags.contains_key(&KINDS[k].0.into_inner()) {
                    Some($b)
                } else {
                    let bad = k == 5 || $m.auto.contains(&KINDS[k].0.into_inner());
                    let r = $b.add_asset_tag(FIELDS[k], tag);
                    post!(r.is_err() == bad, "tag: accepted for a known type without state");
                    if !bad {
                        $m.tags.insert(KINDS[k].0.into_inner(), tag);
                    }
                    r.ok()
                }
            }
            // global state
            1 => {
                let g = $s.below(2 + (wrong as u32));
                let v = Amount::from($s.below(3) as u64);
                let bad = g == 2;
                let (name, ty) =
                    [("note", world::NOTE), ("mark", world::MARK), ("nothing", world::MARK)][g as usize];
                if g < 2 && wrong {
                    let r = $b.add_global_state(name, world::alloc(1));
                    post!(r.is_err(), "global: a value of another type is refused");
                    None
                } else {
                    let r = $b.add_global_state(name, v);
                    post!(r.is_err() == bad, "global: known names are accepted");
                    if !bad {
                        $m.globals.push((ty.into_inner(), bytes(&v)));
                    }
                    r.ok()
                }
            }
            // metadata
            2 => {
                let v = Amount::from($s.below(3) as u64);
                let name = if wrong { "nothing" } else { "reason" };
                if wrong && $s.bool() {
                    let r = $b.add_metadata("reason", world::alloc(1));
                    post!(r.is_err(), "metadata: a value of another type is refused");
                    None
                } else {
                    let bad = wrong || !$m.meta.is_empty();
                    let r = $b.add_metadata(name, v);
                    post!(r.is_err() == bad, "metadata: known names are accepted once");
                    if !bad {
                        $m.meta.push((world::META.into_inner(), bytes(&v)));
                    }
                    r.ok()
                }
            }
            // owned state given as persisted state
            3 => {
                let k = $s.below(if wrong { 6 } else { 5 }) as usize;
                let st = if wrong { $s.below(5) as usize } else { k };
                let ty = world::KINDS[k.min(4)].0.into_inner();
                let v = $s.below(3) as u64;
                let other_tag = wrong && $s.bool();
                let tag = match $m.tags.get(&ty) {
                    Some(t) if !other_tag => *t,
                    _ => world::tag(9),
                };
                let bl = world::blinding($s.below(4));
                let state = match st {
                    0 | 4 => PersistedState::Amount(v.into(), bl, tag),
                    1 => PersistedState::Data(rgbcore::DataState::from(world::alloc(v)), v as u128),
                    2 => PersistedState::Void,
                    _ => PersistedState::Attachment(fx::attach(v as u32).file.clone(), v),
                };
                let bad = refuse_seal
                    || k == 5
                    || (st % 4 != k % 4)
                    || (st % 4 == 0 && $m.tags.get(&ty) != Some(&tag));
                let r = $b.add_owned_state_det(FIELDS[k], seal, state);
                post!(r.is_err() == bad, "state: accepted when name, kind and tag agree");
                if !bad {
                    match k {
                        0 | 4 => {
                            $m.assigns.push((ty, lseal.clone(), format!("{:?}/{:?}", rgbcore::FungibleState::Bits64(v), tag)));
                            $m.blinded.push((ty, lseal, v, bl));
                            $m.auto.push(ty);
                        }
                        1 => $m.assigns.push((ty, lseal, format!("{:?}", rgbcore::DataState::from(world::alloc(v))))),
                        2 => $m.assigns.push((ty, lseal, "right".to_owned())),
                        _ => $m.assigns.push((ty, lseal, format!("{:?}/{v:?}", fx::attach(v as u32).file))),
                    }
                }
                r.ok()
            }
            // owned state given by its value
            _ => {
                let k = $s.below(if wrong { 6 } else { 5 }) as usize;
                let st = if wrong { $s.below(5) as usize } else { k };
                let ty = world::KINDS[k.min(4)].0.into_inner();
                let v = $s.below(3) as u64;
                let bl = world::blinding($s.below(4));
                let untagged = st % 4 == 0 && !$m.tags.contains_key(&ty);
                let bad = refuse_seal || k == 5 || (st % 4 != k % 4) || (untagged && !$genesis);
                let r = match st {
                    0 | 4 => $b.add_fungible_state_det(FIELDS[k], seal, v, bl),
                    1 => $b.add_data_det(FIELDS[k], seal, RevealedData::with_salt(world::alloc(v), v as u128)),
                    2 => $b.add_rights(FIELDS[k], seal),
                    _ => $b.add_attachment_det(FIELDS[k], seal, fx::attach(v as u32)),
                };
                post!(r.is_err() == bad, "state: accepted when name and kind agree");
                if let Ok(b) = &r {
                    match k {
                        0 | 4 => {
                            let tag = b.asset_tag(FIELDS[k]);
                            post!(tag.is_ok(), "tag: there is one for each amount");
                            let tag = tag.unwrap();
                            post!($m.tags.get(&ty).map(|t| *t == tag).unwrap_or(true), "tag: the given one is used");
                            $m.tags.insert(ty, tag);
                            $m.assigns.push((ty, lseal.clone(), format!("{:?}/{:?}", rgbcore::FungibleState::Bits64(v), tag)));
                            $m.blinded.push((ty, lseal, v, bl));
                            $m.auto.push(ty);
                        }
                        1 => $m.assigns.push((ty, lseal, format!("{:?}", rgbcore::DataState::from(world::alloc(v))))),
                        2 => $m.assigns.push((ty, lseal, "right".to_owned())),
                        _ => $m.assigns.push((ty, lseal, format!("{:?}/{:?}", fx::attach(v as u32).file, fx::attach(v as u32).salt))),
                    }
                }
                r.ok()
            }
        }
    }};
}

/// Checks the parts common to all operations.
fn agree<S: Src, O: Operation>(
    s: &mut S,
    op: &O,
    got: (Vec<(u16, String, String)>, Vec<(u16, String, u64, BlindingFactor)>),
    mut m: Model,
) {
    m.assigns.sort();
    reach!(s, m.assigns.len() > 2, "several assignments");
    reach!(
        s,
        m.assigns.windows(2).any(|w| w[0].0 == w[1].0 && w[0].1 == w[1].1),
        "two states of a type on one seal"
    );
    post!(got.0 == m.assigns, "assignments: exactly those added");
    for ty in m.blinded.iter().map(|b| b.0).collect::<std::collections::BTreeSet<_>>() {
        let mut left: Vec<_> = m.blinded.iter().filter(|b| b.0 == ty).collect();
        let mine: Vec<_> = got.1.iter().filter(|b| b.0 == ty).collect();
        let n = left.len();
        for b in &mine {
            if let Some(p) = left.iter().position(|x| x == b) {
                left.remove(p);
            }
        }
        post!(left.len() <= 1, "blinding: kept for all amounts but one");
        let outs: Vec<_> = mine.iter().map(|b| b.3).collect();
        let mut ins: Vec<_> = m.inputs.iter().filter(|i| i.0.ty.into_inner() == ty && i.2).map(|i| i.1).collect();
        if ins.is_empty() {
            ins.push(BlindingFactor::EMPTY);
        }
        reach!(s, n > 1, "several amounts");
        let last = outs[n - 1];
        post!(
            BlindingFactor::zero_balanced(ins, outs[..n - 1].to_vec()).ok() == Some(last),
            "blinding: balances the inputs"
        );
    }
    let mut globals: Vec<(u16, Vec<u8>)> = op
        .globals()
        .iter()
        .flat_map(|(t, v)| v.iter().map(move |d| (t.into_inner(), d.as_inner().to_vec())))
        .collect();
    // the order inside of a type is the order of addition
    let mut want = m.globals.clone();
    want.sort_by_key(|g| g.0);
    globals.sort_by_key(|g| g.0);
    reach!(s, want.len() > 1, "several global items");
    post!(globals == want, "globals: exactly those added, in their order");
    let meta: Vec<(u16, Vec<u8>)> =
        op.metadata().iter().map(|(t, v)| (t.into_inner(), v.as_inner().to_vec())).collect();
    reach!(s, !m.meta.is_empty(), "metadata");
    post!(meta == m.meta, "metadata: exactly what was added");
    post!(op.valencies().is_empty(), "valencies: none is invented");
}

fn transition<S: Src>(s: &mut S) {
    let k = kinds(0);
    let cid = fx::contract_id(s.below(3));
    let how = s.below(5);
    let args = (k.iface.clone(), k.schema.clone(), k.iimpl.clone(), k.types.clone());
    let b: Result<TransitionBuilder, BuilderError> = match how {
        0 => Ok(TransitionBuilder::blank_transition_det(cid, args.0, args.1, args.2, args.3)),
        1 => TransitionBuilder::default_transition_det(cid, args.0, args.1, args.2, args.3),
        2 => TransitionBuilder::named_transition_det(cid, args.0, args.1, args.2, "mint", args.3),
        3 => TransitionBuilder::named_transition_det(cid, args.0, args.1, args.2, "unheard", args.3),
        _ => {
            let mut i = args.0;
            i.default_operation = None;
            TransitionBuilder::default_transition_det(cid, i, args.1, args.2, args.3)
        }
    };
    post!(b.is_err() == (how > 2), "transition: made for known names only");
    let Ok(mut b) = b else {
        reach!(s, how == 3, "unknown transition");
        reach!(s, how == 4, "no default transition");
        return;
    };
    let ty = [TransitionType::BLANK, world::TRANSFER, world::MINT][how as usize];
    post!(b.transition_type() == ty, "transition: of the type behind the name");
    let mut m = Model::default();
    let nonce = if s.bool() { Some(s.below(9) as u64) } else { None };
    if let Some(n) = nonce {
        b = b.set_nonce(n);
    }
    for (i, k) in [0usize, 4].into_iter().enumerate() {
        if s.below(4) != 3 {
            b = b.add_asset_tag_raw(KINDS[k].0, world::tag(i as u32)).unwrap();
            m.tags.insert(KINDS[k].0.into_inner(), world::tag(i as u32));
        }
    }
    for i in 0..s.below(3) {
        let k = s.below(5) as usize;
        let o = Opout::new(fx::opid(s.below(2)), KINDS[k].0, i as u16);
        let bl = world::blinding(10 + i);
        let st = match k {
            0 | 4 => PersistedState::Amount(5u64.into(), bl, world::tag(0)),
            1 => PersistedState::Data(rgbcore::DataState::from(world::alloc(1)), 1),
            2 => PersistedState::Void,
            _ => PersistedState::Attachment(fx::attach(1).file.clone(), 1),
        };
        b = b.add_input(o, st).unwrap();
        m.inputs.push((o, bl, k % 4 == 0));
    }
    post!(b.has_inputs() == !m.inputs.is_empty(), "inputs: known to the builder");
    reach!(s, m.inputs.len() > 1, "several inputs");
    let default = b.default_assignment().ok().map(|n| n.to_string());
    post!(
        default.as_deref() == if how == 0 { None } else { Some("assetOwner") },
        "default assignment: taken from the interface of the transition"
    );
    for _ in 0..s.below(6) {
        if s.below(4) == 3 {
            // by type instead of by name
            let sl = s.below(3);
            let lseal = format!("{:?}", transition_seal(sl));
            let k = s.below(5) as usize;
            let st = if s.below(6) == 5 { s.below(2) as usize } else { k };
            let v = s.below(3) as u64;
            let bl = world::blinding(s.below(4));
            let (t, ty) = (KINDS[k].0, KINDS[k].0.into_inner());
            let tag = m.tags.get(&ty).copied();
            let default = k == 0 && how != 0 && s.bool();
            let given = st % 4 == 0 && !default && s.bool();
            let other = given && s.below(4) == 3;
            let bad = st % 4 != k % 4 || (st % 4 == 0 && tag.is_none()) || other;
            let r = match st {
                _ if given => b.add_owned_state_raw(
                    t,
                    transition_seal(sl),
                    PersistedState::Amount(v.into(), bl, if other { world::tag(9) } else { tag.unwrap_or(world::tag(0)) }),
                ),
                0 if default => b.add_fungible_default_state_det(transition_seal(sl), v, bl),
                0 | 4 => b.add_fungible_state_raw(t, transition_seal(sl), v, bl),
                1 => b.add_data_raw(t, transition_seal(sl), world::alloc(v), v),
                2 => b.add_owned_state_raw(t, transition_seal(sl), PersistedState::Void),
                _ => b.add_owned_state_raw(
                    t,
                    transition_seal(sl),
                    PersistedState::Attachment(fx::attach(v as u32).file.clone(), v),
                ),
            };
            post!(r.is_err() == bad, "state by type: accepted when the kind agrees");
            let Ok(nb) = r else {
                reach!(s, other, "amount with another tag");
                return;
            };
            b = nb;
            match k {
                0 | 4 => {
                    m.assigns.push((ty, lseal.clone(), format!("{:?}/{:?}", rgbcore::FungibleState::Bits64(v), tag.unwrap())));
                    m.blinded.push((ty, lseal, v, bl));
                    m.auto.push(ty);
                }
                1 => m.assigns.push((ty, lseal, format!("{:?}", rgbcore::DataState::from(world::alloc(v))))),
                2 => m.assigns.push((ty, lseal, "right".to_owned())),
                _ => m.assigns.push((ty, lseal, format!("{:?}/{v:?}", fx::attach(v as u32).file))),
            }
            reach!(s, true, "state added by type");
            continue;
        }
        let r = act!(s, m, b, transition_seal, false, true);
        let Some(nb) = r else {
            reach!(s, true, "refused");
            return;
        };
        b = nb;
    }
    let t = b.complete_transition();
    post!(t.is_ok(), "transition: completed");
    let t = t.unwrap();
    post!(t.contract_id == cid && t.transition_type == ty, "transition: contract and type");
    post!(nonce.map(|n| t.nonce == n).unwrap_or(true), "transition: nonce as set");
    let mut ins: Vec<_> = m.inputs.iter().map(|i| i.0).collect();
    ins.sort();
    let got: Vec<_> = t.inputs.iter().map(|i| i.prev_out).collect();
    post!(got == ins, "inputs: exactly those added");
    let a = read(&t.assignments);
    agree(s, &t, a, m);
}

fn genesis<S: Src>(s: &mut S) {
    let needs_meta = s.bool();
    let k = kinds(if needs_meta { 2 } else { 0 });
    let mut b = ContractBuilder::deterministic(
        Identity::default(),
        k.iface.clone(),
        k.schema.clone(),
        k.iimpl.clone(),
        k.types.clone(),
        Default::default(),
    );
    let main = s.bool();
    if main {
        b = b.set_mainnet();
    }
    let liquid = s.bool();
    if liquid {
        b = b.add_layer1(AltLayer1::Liquid).unwrap();
    }
    post!(b.has_layer1(Layer1::Bitcoin) && b.has_layer1(Layer1::Liquid) == liquid, "layer: as added");
    let mut m = Model::default();
    for (i, k) in [0usize, 4].into_iter().enumerate() {
        if s.below(4) != 3 {
            b = b.add_asset_tag(FIELDS[k], world::tag(i as u32)).unwrap();
            m.tags.insert(KINDS[k].0.into_inner(), world::tag(i as u32));
        }
    }
    for _ in 0..s.below(6) {
        let r = act!(s, m, b, genesis_seal, true, liquid);
        let Some(nb) = r else {
            reach!(s, true, "refused");
            return;
        };
        b = nb;
    }
    let at = 1_700_000_000 + s.below(3) as i64;
    let r = b.issue_contract_det(at);
    let attach = m.assigns.iter().any(|a| a.0 == world::ATTACH.into_inner());
    let marks = m.globals.iter().filter(|g| g.0 == world::MARK.into_inner()).count();
    let good = !attach && marks < 2 && m.tags.len() == 2 && m.meta.is_empty() != needs_meta;
    if !attach {
        post!(r.is_ok() == good, "genesis: accepted when the schema allows it");
    }
    let Ok(c) = r else {
        reach!(s, marks > 1, "too many global items");
        reach!(s, m.tags.len() < 2, "missing tag");
        reach!(s, m.meta.is_empty() == needs_meta, "metadata not as in the schema");
        return;
    };
    reach!(s, needs_meta, "genesis with metadata");
    let g = &c.genesis;
    post!(g.timestamp == at && g.testnet != main, "genesis: time and network");
    post!(g.schema_id == k.schema.schema_id() && c.schema == k.schema, "genesis: schema");
    post!(g.alt_layers1.contains(&AltLayer1::Liquid) == liquid, "genesis: layers");
    let tags: std::collections::BTreeMap<u16, AssetTag> =
        g.asset_tags.iter().map(|(t, a)| (t.into_inner(), *a)).collect();
    post!(tags == m.tags, "genesis: exactly the tags added");
    post!(c.bundles.is_empty() && c.extensions.is_empty(), "contract: consists of the genesis");
    post!(
        c.ifaces.len() == 1 && c.ifaces.iter().all(|(i, ii)| *i == k.iface && *ii == k.iimpl),
        "contract: carries the interface"
    );
    let a = read(&g.assignments);
    agree(s, g, a, m);
}

/// Additions with random blinding.
fn random<S: Src>(s: &mut S) {
    let k = kinds(0);
    let usual = s.below(2) as usize;
    let mut iface = k.iface.clone();
    let name = iface.default_operation.clone().unwrap();
    let mut op = iface.transitions.get(&name).unwrap().clone();
    op.default_assignment = Some(FIELDS[usual].into());
    iface.transitions.insert(name, op).unwrap();
    let mut b = TransitionBuilder::default_transition(
        fx::contract_id(0),
        iface,
        k.schema.clone(),
        k.iimpl.clone(),
        k.types.clone(),
    )
    .unwrap();
    for (i, k) in [0usize, 4].into_iter().enumerate() {
        b = b.add_asset_tag(FIELDS[k], world::tag(i as u32)).unwrap();
    }
    let mut want = vec![];
    for _ in 0..1 + s.below(4) {
        let f = s.below(6) as usize;
        let st = if s.below(8) == 7 { s.below(5) as usize } else { f };
        let v = s.below(3) as u64;
        let sl = s.below(3);
        let lseal = format!("{:?}", transition_seal(sl));
        let default = f == usual && s.bool();
        let bad = f == 5 || st % 4 != f % 4;
        let r = match st {
            0 if default => b.add_fungible_default_state(transition_seal(sl), v),
            1 if default => b.add_data_default(transition_seal(sl), world::alloc(v)),
            0 | 4 => b.add_fungible_state(FIELDS[f], transition_seal(sl), v),
            1 => b.add_data(FIELDS[f], transition_seal(sl), world::alloc(v)),
            2 => b.add_rights(FIELDS[f], transition_seal(sl)),
            _ => b.add_attachment(FIELDS[f], transition_seal(sl), fx::attach(v as u32).file.clone()),
        };
        post!(r.is_err() == bad, "state: accepted when name and kind agree");
        let Ok(nb) = r else { return };
        b = nb;
        let ty = KINDS[f].0.into_inner();
        want.push((
            ty,
            lseal,
            match f {
                0 | 4 => format!("{:?}/{:?}", rgbcore::FungibleState::Bits64(v), world::tag((f / 4) as u32)),
                1 => format!("{:?}", rgbcore::DataState::from(world::alloc(v))),
                2 => "right".to_owned(),
                _ => format!("{:?}", fx::attach(v as u32).file),
            },
        ));
    }
    let t = b.complete_transition().unwrap();
    let (mut got, bl) = read(&t.assignments);
    for g in &mut got {
        if g.0 == world::ATTACH.into_inner() {
            let (f, _) = g.2.rsplit_once('/').unwrap();
            g.2 = f.to_owned();
        }
    }
    want.sort();
    got.sort();
    reach!(s, want.len() > 2, "several assignments");
    post!(got == want, "assignments: exactly those added");
    for ty in [world::AMOUNT.into_inner(), world::OTHER.into_inner()] {
        let outs: Vec<_> = bl.iter().filter(|b| b.0 == ty).map(|b| b.3).collect();
        if let Some((last, rest)) = outs.split_last() {
            post!(
                BlindingFactor::zero_balanced([BlindingFactor::EMPTY], rest.to_vec()).ok() == Some(*last),
                "blinding: balances the inputs"
            );
        }
    }
}

/// A contract issued with random blinding.
fn issued<S: Src>(s: &mut S) {
    let k = kinds(0);
    let mut b = ContractBuilder::with(
        Identity::from("someone"),
        k.iface.clone(),
        k.schema.clone(),
        k.iimpl.clone(),
        k.types.clone(),
        Default::default(),
    );
    let liquid = s.bool();
    if liquid {
        b = b.add_layer1(AltLayer1::Liquid).unwrap();
    }
    for (i, k) in [0usize, 4].into_iter().enumerate() {
        b = b.add_asset_tag(FIELDS[k], world::tag(i as u32)).unwrap();
    }
    let mut want = vec![];
    for _ in 0..1 + s.below(4) {
        let f = s.below(6) as usize;
        let st = if s.below(8) == 7 { s.below(5) as usize } else { f };
        let v = s.below(3) as u64;
        let sl = s.below(4);
        let lseal = format!("{:?}", genesis_seal(sl));
        let bad = f == 5 || st % 4 != f % 4 || (sl == 3 && !liquid);
        let r = match st {
            0 | 4 => b.add_fungible_state(FIELDS[f], genesis_seal(sl), v),
            1 => b.add_data(FIELDS[f], genesis_seal(sl), world::alloc(v)),
            2 => b.add_rights(FIELDS[f], genesis_seal(sl)),
            _ => b.add_attachment(FIELDS[f], genesis_seal(sl), fx::attach(v as u32).file.clone()),
        };
        post!(r.is_err() == bad, "state: accepted when name, kind and layer agree");
        let Ok(nb) = r else { return };
        b = nb;
        want.push((
            KINDS[f].0.into_inner(),
            lseal,
            match f {
                0 | 4 => format!("{:?}/{:?}", rgbcore::FungibleState::Bits64(v), world::tag((f / 4) as u32)),
                1 => format!("{:?}", rgbcore::DataState::from(world::alloc(v))),
                2 => "right".to_owned(),
                _ => format!("{:?}", fx::attach(v as u32).file),
            },
        ));
    }
    let r = b.issue_contract();
    let attach = want.iter().any(|w| w.0 == world::ATTACH.into_inner());
    post!(r.is_ok() || attach, "genesis: accepted when the schema allows it");
    let Ok(c) = r else {
        reach!(s, true, "attachment");
        return;
    };
    let g = &c.genesis;
    post!(g.issuer == Identity::from("someone") && g.testnet, "genesis: issuer and network");
    post!(g.alt_layers1.contains(&AltLayer1::Liquid) == liquid, "genesis: layers");
    let (mut got, _) = read(&g.assignments);
    for g in &mut got {
        if g.0 == world::ATTACH.into_inner() {
            let (f, _) = g.2.rsplit_once('/').unwrap();
            g.2 = f.to_owned();
        }
    }
    want.sort();
    got.sort();
    reach!(s, want.len() > 2, "several assignments");
    post!(got == want, "assignments: exactly those added");
}

/// Builders given out by a stock.
fn stocked<S: Src>(s: &mut S) {
    let k = kinds(0);
    let chain = world::Chain::default();
    let coins = [world::Coin { kind: 0, seal: 1, value: 5 }];
    let mut c = world::issue(0, s.below(2), &coins, CloseMethod::OpretFirst).into_consignment();
    let implemented = s.bool();
    if !implemented {
        c.ifaces = Default::default();
    }
    let cid = c.genesis.contract_id();
    let tags = c.genesis.asset_tags.clone();
    let mut stock = Stock::in_memory();
    // an interface which another schema implements, perhaps a version of the same
    let mut k1 = (kinds(1).iface.clone(), kinds(1).iimpl.clone());
    if s.bool() {
        k1.0 = k.iface.clone();
        k1.0.timestamp += 1 + s.below(64) as i64;
        k1.1.iface_id = k1.0.iface_id();
    }
    let mut kit = rgbstd::containers::Kit::default();
    kit.schemata.push(kinds(1).schema.clone()).unwrap();
    kit.ifaces.push(k1.0.clone()).unwrap();
    kit.iimpls.push(k1.1).unwrap();
    kit.types = k.types.clone();
    let Ok(kit) = kit.validate() else { panic!("kit") };
    stock.import_kit(kit).unwrap();
    let Ok(c) = c.validate(&chain, true) else { panic!("contract") };
    stock.import_contract(c, &chain).unwrap();
    let (own, other, unknown) = (k.iface.iface_id(), k1.0.iface_id(), rgbstd::interface::IfaceId::from(fx::b32(3)));
    let what = s.below(3);
    let face = [own, other, unknown][what as usize];
    let good = what == 0 && implemented;
    reach!(s, !implemented, "no implementation");
    reach!(s, implemented && what == 1, "another interface");
    match s.below(4) {
        0 => {
            let b = stock.blank_builder(cid, face);
            post!(
                b.is_ok() == (implemented && what < 2),
                "blank: through any interface of the stock, when the schema implements one"
            );
            let Ok(b) = b else { return };
            post!(b.transition_type() == TransitionType::BLANK, "blank: a blank transition");
            for (n, (t, _)) in KINDS.iter().enumerate().filter(|(n, _)| n % 4 == 0) {
                post!(b.asset_tag(FIELDS[n]).ok() == tags.get(t).copied(), "blank: with the tags of the contract");
            }
            let t = b.complete_transition().unwrap();
            post!(t.contract_id == cid, "blank: of the contract");
        }
        1 => {
            let name = [None, Some("mint"), Some("unheard")][s.below(3) as usize];
            let b = stock.transition_builder(cid, face, name);
            post!(b.is_ok() == (good && name != Some("unheard")), "transition: through the implemented interface");
            let Ok(b) = b else { return };
            post!(
                b.transition_type() == if name.is_some() { world::MINT } else { world::TRANSFER },
                "transition: of the type behind the name"
            );
            for (n, (t, _)) in KINDS.iter().enumerate().filter(|(n, _)| n % 4 == 0) {
                post!(b.asset_tag(FIELDS[n]).ok() == tags.get(t).copied(), "transition: with the tags of the contract");
            }
            let t = b.complete_transition().unwrap();
            post!(t.contract_id == cid, "transition: of the contract");
        }
        2 => {
            let b = stock.contract_builder("someone", k.schema.schema_id(), face);
            post!(b.is_ok() == good, "contract: through the implemented interface");
            let Ok(mut b) = b else { return };
            for (n, f) in FIELDS.iter().enumerate().filter(|(n, _)| *n == 0 || *n == 4) {
                b = b.add_asset_tag(*f, world::tag(n as u32)).unwrap();
            }
            let c = b.issue_contract();
            post!(c.is_ok(), "contract: issued");
            let c = c.unwrap();
            post!(c.schema == k.schema && c.genesis.issuer == Identity::from("someone"), "contract: of the schema and issuer");
            post!(c.ifaces.iter().all(|(i, ii)| *i == k.iface && *ii == k.iimpl), "contract: carries the interface");
        }
        _ => {
            let f = stock.contract_iface(cid, face);
            post!(f.is_ok() == good, "interface: exactly the implemented one");
            let Ok(f) = f else { return };
            post!(f.iface == k.iimpl && f.schema == k.schema && f.info.id == cid, "interface: of the contract");
        }
    }
}

const FNS: &[&str] = &["OperationBuilder::add_asset_tag", "OperationBuilder::init_asset_tag", "OperationBuilder::add_metadata", "OperationBuilder::add_global_state", "OperationBuilder::add_owned_state_raw", "OperationBuilder::add_rights_raw", "OperationBuilder::add_fungible_state_raw", "OperationBuilder::add_data_raw", "OperationBuilder::add_attachment_raw", "OperationBuilder::complete"];

pub const PROPERTY: Property = Property {
    id: "C14",
    module: "c14",
    findings: &[],
    contracts: &[
        Contract {
            name: "transition",
            f: transition,
            fns: FNS,
            kani: Kani::No,
            native: "blank, default and named transitions with up to 2 inputs and up to 5 additions of each kind by name or type on 3 seals, including wrong names, kinds, tags and values",
            reach: &["unknown transition", "no default transition", "several inputs", "refused", "state added by type", "amount with another tag", "several assignments", "two states of a type on one seal", "several amounts", "several global items", "metadata"],
        },
        Contract {
            name: "genesis",
            f: genesis,
            fns: &["ContractBuilder::issue_contract_det", "ContractBuilder::add_layer1", "ContractBuilder::check_layer1", "ContractBuilder::add_fungible_state_det", "ContractBuilder::add_owned_state_det", "OperationBuilder::complete"],
            kani: Kani::No,
            native: "contracts of two schemata with up to 5 additions of each kind on 4 seals of two layers, including wrong names, kinds, tags and values",
            reach: &["refused", "several assignments", "several amounts", "genesis with metadata", "too many global items", "missing tag", "metadata not as in the schema"],
        },
        Contract {
            name: "random",
            f: random,
            fns: &["OperationBuilder::add_fungible_state", "OperationBuilder::add_data", "OperationBuilder::add_attachment", "OperationBuilder::add_rights", "TransitionBuilder::default_assignment", "TransitionBuilder::add_fungible_default_state", "TransitionBuilder::add_data_default"],
            kani: Kani::No,
            native: "1..4 additions with random blinding on 3 seals",
            reach: &["several assignments"],
        },
        Contract {
            name: "issued",
            f: issued,
            fns: &["ContractBuilder::add_fungible_state", "ContractBuilder::add_data", "ContractBuilder::add_attachment", "ContractBuilder::add_rights", "ContractBuilder::issue_contract"],
            kani: Kani::No,
            native: "1..4 additions with random blinding on 4 seals of two layers",
            reach: &["several assignments", "attachment"],
        },
        Contract {
            name: "stocked",
            f: stocked,
            fns: &["Stock::blank_builder", "Stock::transition_builder", "Stock::contract_builder", "Stock::contract_iface", "Stash::blank_builder", "Stash::transition_builder", "Stash::contract_builder", "Stash::extract"],
            kani: Kani::No,
            native: "builders for a contract with or without implementation through 3 interfaces, known, of another schema and unknown",
            reach: &["no implementation", "another interface"],
        },
    ],
};
