//! C18: wallet history and allocations show each coin once and only own coins.
//# assumes: the contract state lists every output of an operation once (C08)

use std::borrow::Borrow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

use amplify::ByteArray;
use bp::{Outpoint, Txid};
use rgbcore::vm::{
    ContractStateAccess, GlobalContractState, GlobalOrd, GlobalStateIter, UnknownGlobalStateType, WitnessOrd,
};
use rgbcore::{
    AssetTag, AssignmentType, AttachState, BlindingFactor, ContractId, DataState, FungibleState, GlobalStateType,
    OpId, Opout, RevealedAttach, RevealedData, RevealedValue, SchemaId, VoidState, XChain, XOutpoint, XOutputSeal,
    XWitnessId,
};
use amplify::Wrapper as _;
use rgbstd::{Amount, KnownState, OutputAssignment, WitnessInfo};
use rgbstd::containers::ConsignmentExt;
use rgbstd::interface::{
    AllocatedState, AssignmentsFilter, ContractBuilder, ContractError, ContractIface, ContractOp, FilterExclude, FilterIncludeAll,
    OpDirection, OwnedAllocation,
};
use rgbstd::persistence::ContractStateRead;

use crate::registry::{Contract, Kani, Property};
use crate::src::Src;
use crate::{fx, post, reach, st, world};

/// Contract state consisting of the given lists.
#[derive(Clone, Debug, Default)]
struct Lists {
    rights: Vec<OutputAssignment<VoidState>>,
    fungible: Vec<OutputAssignment<RevealedValue>>,
    data: Vec<OutputAssignment<RevealedData>>,
    attach: Vec<OutputAssignment<RevealedAttach>>,
}

struct Never;
impl GlobalStateIter for Never {
    type Data = DataState;
    fn size(&mut self) -> amplify::num::u24 { amplify::num::u24::ZERO }
    fn prev(&mut self) -> Option<(GlobalOrd, DataState)> { None }
    fn last(&mut self) -> Option<(GlobalOrd, DataState)> { None }
    fn reset(&mut self, _: amplify::num::u24) {}
}

impl ContractStateAccess for Lists {
    fn global(&self, ty: GlobalStateType) -> Result<GlobalContractState<impl GlobalStateIter>, UnknownGlobalStateType> {
        Err::<GlobalContractState<Never>, _>(UnknownGlobalStateType(ty))
    }
    fn rights(&self, _: XOutpoint, _: AssignmentType) -> u32 { 0 }
    fn fungible(&self, _: XOutpoint, _: AssignmentType) -> impl DoubleEndedIterator<Item = FungibleState> {
        std::iter::empty()
    }
    fn data(&self, _: XOutpoint, _: AssignmentType) -> impl DoubleEndedIterator<Item = impl Borrow<DataState>> {
        std::iter::empty::<DataState>()
    }
    fn attach(&self, _: XOutpoint, _: AssignmentType) -> impl DoubleEndedIterator<Item = impl Borrow<AttachState>> {
        std::iter::empty::<AttachState>()
    }
}

impl ContractStateRead for Lists {
    fn contract_id(&self) -> ContractId { fx::contract_id(5) }
    fn schema_id(&self) -> SchemaId { world::kinds(0).schema.schema_id() }
    fn witness_ord(&self, w: XWitnessId) -> Option<WitnessOrd> {
        (1..4).find(|n| wid(*n) == Some(w)).map(|n| st::ord(n))
    }
    fn rights_all(&self) -> impl Iterator<Item = &OutputAssignment<VoidState>> { self.rights.iter() }
    fn fungible_all(&self) -> impl Iterator<Item = &OutputAssignment<RevealedValue>> { self.fungible.iter() }
    fn data_all(&self) -> impl Iterator<Item = &OutputAssignment<RevealedData>> { self.data.iter() }
    fn attach_all(&self) -> impl Iterator<Item = &OutputAssignment<RevealedAttach>> { self.attach.iter() }
}

fn wid(n: u32) -> Option<XWitnessId> {
    match n {
        0 => None,
        n => Some(XChain::Bitcoin(fx::txid(n))),
    }
}

/// One output of the model.
#[derive(Copy, Clone, Debug)]
struct Row {
    class: u32,
    ty: AssignmentType,
    op: u32,
    no: u16,
    seal: u32,
    witness: u32,
    v: u64,
}

const UNNAMED: AssignmentType = AssignmentType::with(77);

impl Row {
    fn opout(&self) -> Opout { Opout::new(fx::opid(self.op), self.ty, self.no) }
    /// Two seals per outpoint, differing in the closing method.
    fn seal(&self) -> XOutputSeal { fx::output_seal(self.seal % 2, self.seal / 2) }
    fn value(&self) -> RevealedValue {
        RevealedValue::with_blinding(
            FungibleState::Bits64(self.v),
            world::blinding(self.op),
            AssetTag::from_byte_array(fx::b32(77)),
        )
    }
    fn shown(&self) -> AllocatedState {
        match self.class {
            0 => AllocatedState::Void,
            1 => AllocatedState::Amount(self.v.into()),
            2 => AllocatedState::Data(fx::data(self.v as u32).value),
            _ => AllocatedState::Attachment(fx::attach(self.v as u32).into()),
        }
    }
    fn put<T: KnownState>(&self, state: T) -> OutputAssignment<T> {
        OutputAssignment { opout: self.opout(), seal: self.seal(), state, witness: wid(self.witness) }
    }
}

/// Operations of up to three outputs; one per witness or without it.
fn draw<S: Src>(s: &mut S, ops: u32) -> Vec<Row> {
    let mut rows = vec![];
    let n = s.below(ops + 1);
    for op in 0..n {
        let witness = s.below(4);
        let outs = 1 + s.below(3);
        for i in 0..outs {
            let class = s.below(4);
            let alt = s.below(3);
            let ty = match (class, alt) {
                (_, 2) => UNNAMED,
                (1, 1) => world::OTHER,
                (0, _) => world::RIGHT,
                (1, _) => world::AMOUNT,
                (2, _) => world::DATA,
                _ => world::ATTACH,
            };
            let v = match s.below(4) {
                0 => u64::MAX,
                1 => 0,
                k => 10 * op as u64 + k as u64,
            };
            let v = if class == 1 { v } else { v % 100 };
            rows.push(Row { class, ty, op, no: i as u16, seal: s.below(6), witness, v });
        }
    }
    rows
}

fn lists(rows: &[Row]) -> Lists {
    let mut l = Lists::default();
    for r in rows {
        match r.class {
            0 => l.rights.push(r.put(VoidState::default())),
            1 => l.fungible.push(r.put(r.value())),
            2 => l.data.push(r.put(fx::data(r.v as u32))),
            _ => l.attach.push(r.put(fx::attach(r.v as u32))),
        }
    }
    l
}

thread_local! {
    static FACE: ContractIface<Lists> = {
        let mut stock = world::stock();
        let c = world::issue(0, 0, &[], fx::method(0));
        let id = c.contract_id();
        stock.import_contract(c, &world::Chain::default()).unwrap();
        let f = stock.contract_iface(id, world::kinds(0).iface.name.clone()).unwrap();
        ContractIface {
            state: Lists::default(),
            schema: f.schema.clone(),
            iface: f.iface.clone(),
            types: f.types.clone(),
            info: f.info.clone(),
        }
    };
}

fn face(rows: &[Row]) -> ContractIface<Lists> {
    let mut f = FACE.with(|f| f.clone());
    f.state = lists(rows);
    f
}

/// Filter over outpoints and witnesses by number; bit 7 of `witness` is set if
/// state without a witness passes.
#[derive(Copy, Clone, Debug)]
struct Mask {
    outpoints: u32,
    witnesses: u32,
}
impl Mask {
    fn row(&self, r: &Row) -> bool {
        self.outpoints >> (r.seal / 2) & 1 == 1 && self.witnesses >> r.witness & 1 == 1
    }
}
impl AssignmentsFilter for Mask {
    fn should_include(&self, outpoint: impl Into<XOutpoint>, witness_id: Option<XWitnessId>) -> bool {
        let o = outpoint.into();
        let n = (0..3).find(|n| fx::output_seal(0, *n).to_outpoint() == o);
        let w = (0..4).find(|n| wid(*n) == witness_id);
        match (n, w) {
            (Some(n), Some(w)) => self.outpoints >> n & 1 == 1 && self.witnesses >> w & 1 == 1,
            _ => panic!("filter: asked about an assignment which does not exist"),
        }
    }
}

fn key<T: KnownState>(a: &OutputAssignment<T>) -> String {
    format!("{:?} {:?} {:?} {:?}", a.opout, a.seal, a.state, a.witness)
}

fn same<T: KnownState>(got: impl Iterator<Item = OutputAssignment<T>>, want: Vec<OutputAssignment<T>>) -> bool {
    let mut a: Vec<_> = got.map(|a| key(&a)).collect();
    let mut b: Vec<_> = want.iter().map(key).collect();
    a.sort();
    b.sort();
    a == b
}

fn view<S: Src>(s: &mut S) {
    let rows = draw(s, 3);
    let f = face(&rows);
    let m = Mask { outpoints: s.below(8), witnesses: s.below(16) };
    let sel = |class: u32, ty: Option<AssignmentType>| -> Vec<Row> {
        rows.iter().copied().filter(|r| r.class == class && ty.map_or(true, |t| t == r.ty) && m.row(r)).collect()
    };
    let total = rows.iter().filter(|r| m.row(r)).count();
    reach!(s, total > 0 && total < rows.len(), "some of the assignments pass");
    reach!(s, sel(1, Some(world::AMOUNT)).len() > 1, "several amounts");
    post!(f.contract_id() == fx::contract_id(5), "view: of the contract");
    let n = |k: usize| world::name(world::KINDS[k].1);
    post!(
        same(
            f.rights(n(2), m).unwrap(),
            sel(0, Some(world::RIGHT)).iter().map(|r| r.put(VoidState::default())).collect()
        ),
        "rights: those of the name which pass the filter"
    );
    for (k, ty) in [(0, world::AMOUNT), (4, world::OTHER)] {
        post!(
            same(f.fungible(n(k), m).unwrap(), sel(1, Some(ty)).iter().map(|r| r.put(r.v.into())).collect()),
            "amounts: those of the name which pass the filter"
        );
    }
    post!(
        same(
            f.data(n(1), m).unwrap(),
            sel(2, Some(world::DATA)).iter().map(|r| r.put(fx::data(r.v as u32).value)).collect()
        ),
        "data: those of the name which pass the filter"
    );
    post!(
        same(
            f.attachments(n(3), m).unwrap(),
            sel(3, Some(world::ATTACH)).iter().map(|r| r.put(AttachState::from(fx::attach(r.v as u32)))).collect()
        ),
        "attachments: those of the name which pass the filter"
    );
    let no = world::name("nothing");
    post!(
        matches!(f.fungible(no.clone(), m).err(), Some(ContractError::FieldNameUnknown(x)) if x == no)
            && f.rights(no.clone(), m).is_err()
            && f.data(no.clone(), m).is_err()
            && f.attachments(no.clone(), m).is_err(),
        "unknown name: reported"
    );
    let all = |p: &dyn Fn(&Row) -> bool| -> Vec<OwnedAllocation> {
        rows.iter().filter(|r| p(r)).map(|r| r.put(r.shown())).collect()
    };
    post!(same(f.allocations(m), all(&|r| m.row(r))), "allocations: exactly those which pass the filter");
    let o = s.below(3);
    post!(
        same(f.outpoint_allocations(fx::output_seal(0, o).to_outpoint()), all(&|r| r.seal / 2 == o)),
        "outpoint: exactly the allocations on it"
    );
    post!(f.witness_info(XChain::Bitcoin(fx::txid(9))).is_none(), "witness: unknown is not reported");
    post!(
        f.witness_info(wid(2).unwrap()) == Some(WitnessInfo { id: wid(2).unwrap(), ord: st::ord(2) }),
        "witness: reported as known to the state"
    );
}

type Entry = (u8, AssignmentType, BTreeSet<OpId>, String, BTreeSet<XOutputSeal>, Option<(XWitnessId, String)>);

fn entry(o: &ContractOp) -> Entry {
    let d = match o.direction {
        OpDirection::Issued => 0,
        OpDirection::Received => 1,
        OpDirection::Sent => 2,
    };
    (
        d,
        o.ty,
        o.opids.clone(),
        format!("{:?}", o.state),
        o.to.clone(),
        o.witness.map(|w| (w.id, format!("{:?}", w.ord))),
    )
}

/// What the history has to say about state of the given class.
fn expected(rows: &[Row], class: u32, own: Mask, spent_by: Mask) -> Vec<Entry> {
    let mut res = vec![];
    for w in 0..4u32 {
        let here = || rows.iter().filter(move |r| r.class == class && r.witness == w);
        let ours = spent_by.witnesses >> w & 1 == 1;
        let (d, list): (u8, Vec<&Row>) = if w == 0 {
            (0, here().filter(|r| own.row(r)).collect())
        } else if ours {
            (2, here().filter(|r| !own.row(r)).collect())
        } else {
            (1, here().filter(|r| own.row(r)).collect())
        };
        let info = wid(w).map(|id| (id, format!("{:?}", st::ord(w))));
        if class == 1 {
            let tys: BTreeSet<_> = list.iter().map(|r| r.ty).collect();
            for ty in tys {
                let l: Vec<_> = list.iter().filter(|r| r.ty == ty).collect();
                let sum = l.iter().map(|r| r.v as u128).sum::<u128>().min(u64::MAX as u128) as u64;
                res.push((
                    d,
                    ty,
                    l.iter().map(|r| r.opout().op).collect(),
                    format!("{:?}", AllocatedState::Amount(sum.into())),
                    l.iter().map(|r| r.seal()).collect(),
                    info.clone(),
                ));
            }
        } else {
            for r in list {
                res.push((
                    d,
                    r.ty,
                    BTreeSet::from([r.opout().op]),
                    format!("{:?}", r.shown()),
                    BTreeSet::from([r.seal()]),
                    info.clone(),
                ));
            }
        }
    }
    res.sort();
    res
}

fn history<S: Src>(s: &mut S) {
    let rows = draw(s, 4);
    let f = face(&rows);
    let own = Mask { outpoints: s.below(8), witnesses: 15 };
    // transactions of the wallet; state without a witness is not asked for
    let txs = Mask { outpoints: 7, witnesses: s.below(8) << 1 };
    let got = |v: Vec<ContractOp>| {
        let mut v: Vec<_> = v.iter().map(entry).collect();
        v.sort();
        v
    };
    let mut all = vec![];
    for (class, h) in [
        (0, f.history_rights(own, txs)),
        (1, f.history_fungible(own, txs)),
        (2, f.history_data(own, txs)),
        (3, f.history_attach(own, txs)),
    ] {
        let want = expected(&rows, class, own, txs);
        reach!(s, want.iter().any(|e| e.0 == 0), "issue");
        reach!(s, want.iter().any(|e| e.0 == 1), "receipt");
        reach!(s, want.iter().any(|e| e.0 == 2), "spending");
        reach!(s, want.iter().any(|e| e.4.len() > 1), "several coins in one entry");
        let h = got(h);
        post!(h.len() == want.len(), "history: every entry once and nothing unrelated");
        for (a, b) in h.iter().zip(&want) {
            post!(a.0 == b.0, "history: direction");
            post!(a.3 == b.3, "history: state and balance");
            post!(a.4 == b.4, "history: seals");
            post!(a.5 == b.5, "history: witness");
            post!(a == b, "history: entry");
        }
        all.extend(want);
    }
    all.sort();
    post!(got(f.history(own, txs)) == all, "history: the parts together");
}

/// At most one value per type: iteration over more is a recorded finding (C08).
fn globals<S: Src>(s: &mut S) {
    let k = world::kinds(0);
    let mut b = ContractBuilder::deterministic(
        rgbcore::Identity::default(),
        k.iface.clone(),
        k.schema.clone(),
        k.iimpl.clone(),
        k.types.clone(),
        Default::default(),
    )
    .add_asset_tag("assetOwner", world::tag(0))
    .unwrap()
    .add_asset_tag("bonusOwner", world::tag(1))
    .unwrap();
    let notes: Vec<u64> = (0..s.below(2)).map(|_| [0, 7, 8, u64::MAX][s.below(4) as usize]).collect();
    let mark = s.bool().then(|| s.below(2) as u64);
    for v in &notes {
        b = b.add_global_state("note", Amount::from(*v)).unwrap();
    }
    if let Some(v) = mark {
        b = b.add_global_state("mark", Amount::from(v)).unwrap();
    }
    reach!(s, notes.len() == 1 && mark.is_some(), "both types");
    let c = b.issue_contract_det(1_700_000_000).unwrap();
    let id = c.contract_id();
    let mut stock = world::stock();
    stock.import_contract(c, &world::Chain::default()).unwrap();
    let f = stock.contract_iface(id, k.iface.name.clone()).unwrap();
    post!(f.contract_id() == id, "view: of the contract");
    let read = |n: &'static str| -> Vec<u64> {
        f.global(n).unwrap().map(|v| v.unwrap_num().unwrap_uint::<u64>()).collect()
    };
    let raw = |ty: GlobalStateType| -> Vec<u64> {
        st::global_list(&f.state, ty.to_inner())
            .into_iter()
            .map(|b| u64::from_le_bytes(b.try_into().unwrap()))
            .collect()
    };
    let sorted = |mut v: Vec<u64>| {
        v.sort();
        v
    };
    post!(sorted(read("note")) == sorted(notes.clone()), "global: every value once");
    post!(read("note") == raw(world::NOTE), "global: as in the contract state");
    post!(read("mark") == mark.into_iter().collect::<Vec<_>>(), "global: single value");
    post!(
        matches!(f.global("nothing").err(), Some(ContractError::FieldNameUnknown(x)) if x == world::name("nothing")),
        "global: unknown name reported"
    );
}

fn pt<S: Src>(s: &mut S) -> XOutpoint {
    let mut id = [0u8; 32];
    if cfg!(kani) {
        for b in id.iter_mut() {
            *b = s.u8();
        }
    } else {
        id[0] = s.below(2) as u8;
        id[31] = s.below(2) as u8;
    }
    let vout = if cfg!(kani) { s.u32() } else { s.below(2) };
    let liquid = s.bool();
    crate::toy::chain(liquid, Outpoint::new(Txid::from_byte_array(id), vout)).into()
}

fn eq(a: &XOutpoint, b: &XOutpoint) -> bool {
    let same = |x: &Outpoint, y: &Outpoint| {
        x.vout.into_u32() == y.vout.into_u32() && x.txid.to_byte_array() == y.txid.to_byte_array()
    };
    match (&**a, &**b) {
        (XChain::Bitcoin(x), XChain::Bitcoin(y)) => same(x, y),
        (XChain::Liquid(x), XChain::Liquid(y)) => same(x, y),
        _ => false,
    }
}

fn filters<S: Src>(s: &mut S) {
    let kind = s.below(8);
    let (a, b, o) = (pt(s), pt(s), pt(s));
    let w = if s.bool() { wid(1) } else { None };
    let (ia, ib) = (eq(&a, &o), eq(&b, &o));
    reach!(s, ib && !ia, "second only");
    reach!(s, !ib && !ia, "none");
    match kind {
        0 => post!(a.should_include(o, w) == ia, "outpoint: itself"),
        1 => {
            post!([a, b].should_include(o, w) == (ia || ib), "array: its members");
            let none: [XOutpoint; 0] = [];
            post!(!none.should_include(o, w), "empty array: nothing");
        }
        2 => post!((&[a, b][..]).should_include(o, w) == (ia || ib), "slice: its members"),
        3 => post!(vec![a, b].should_include(o, w) == (ia || ib), "list: its members"),
        4 => {
            post!(None::<XOutpoint>.should_include(o, w), "no filter: everything");
            post!(Some(a).should_include(o, w) == ia, "filter given: as the filter says");
        }
        5 => post!((&a).should_include(o, w) == ia && (&&a).should_include(o, w) == ia, "reference: as the filter"),
        6 => {
            let mut x = a;
            post!((&mut x).should_include(o, w) == ia, "mutable reference: as the filter");
        }
        _ => {
            post!(FilterExclude(a).should_include(o, w) != ia, "exclusion: the opposite");
            post!(FilterIncludeAll.should_include(o, w), "all: everything");
        }
    }
}

fn sets<S: Src>(s: &mut S) {
    let pts: Vec<XOutpoint> = (0..s.below(4)).map(|_| pt(s)).collect();
    let o = pt(s);
    let w = if s.bool() { wid(1) } else { None };
    let want = pts.iter().any(|p| eq(p, &o));
    reach!(s, want, "member");
    reach!(s, !want && !pts.is_empty(), "not a member");
    post!(pts.should_include(o, w) == want, "list: its members");
    post!(pts.iter().copied().collect::<HashSet<_>>().should_include(o, w) == want, "hash set: its members");
    post!(pts.iter().copied().collect::<BTreeSet<_>>().should_include(o, w) == want, "ordered set: its members");
    post!(pts.iter().map(|p| (*p, 1u8)).collect::<HashMap<_, _>>().should_include(o, w) == want, "hash map: its keys");
    post!(
        pts.iter().map(|p| (*p, 1u8)).collect::<BTreeMap<_, _>>().should_include(o, w) == want,
        "ordered map: its keys"
    );
    post!(FilterExclude(pts).should_include(o, w) != want, "exclusion: the opposite");
}

#[cfg(kani)]
mod k {
    crate::proof_split!([kani::unwind(34)] filters : 0 1 2 3 4 5 6 7);
}

pub const PROPERTY: Property = Property {
    id: "C18",
    module: "c18",
    contracts: &[
        Contract {
            name: "filters",
            f: filters,
            fns: &[
                "AssignmentsFilter for XOutpoint", "AssignmentsFilter for [XOutpoint; LEN]",
                "AssignmentsFilter for &[XOutpoint]", "AssignmentsFilter for Vec", "AssignmentsFilter for Option",
                "AssignmentsFilter for &T", "AssignmentsFilter for &mut T", "FilterExclude", "FilterIncludeAll",
            ],
            kani: Kani::SplitBounded(8, "lists of two outpoints; outpoints and witness unbounded"),
            native: "lists of two outpoints on both chains",
            reach: &["second only", "none"],
        },
        Contract {
            name: "sets",
            f: sets,
            fns: &[
                "AssignmentsFilter for HashSet", "AssignmentsFilter for BTreeSet", "AssignmentsFilter for HashMap",
                "AssignmentsFilter for BTreeMap", "AssignmentsFilter for Vec",
            ],
            kani: Kani::No,
            native: "collections of up to 3 outpoints on both chains",
            reach: &["member", "not a member"],
        },
        Contract {
            name: "globals",
            f: globals,
            fns: &["ContractIface::global", "Stock::contract_iface", "Stock::contract_raw"],
            kani: Kani::No,
            native: "contracts with up to one value of each of two global types (exhaustive)",
            reach: &["both types"],
        },
        Contract {
            name: "view",
            f: view,
            fns: &[
                "ContractIface::rights", "ContractIface::fungible", "ContractIface::data",
                "ContractIface::attachments", "ContractIface::allocations", "ContractIface::outpoint_allocations",
                "ContractIface::extract_state", "ContractIface::witness_info", "ContractIface::contract_id",
                "OutputAssignment::transmute", "AllocatedState::from",
            ],
            kani: Kani::No,
            native: "contract states of up to 3 operations with up to 3 outputs each, all filters over 3 outpoints and 4 witnesses",
            reach: &["some of the assignments pass", "several amounts"],
        },
        Contract {
            name: "history",
            f: history,
            fns: &[
                "ContractIface::history", "ContractIface::history_fungible", "ContractIface::history_rights",
                "ContractIface::history_data", "ContractIface::history_attach", "ContractIface::operations",
                "ContractOp::fungible_genesis", "ContractOp::fungible_sent", "ContractOp::fungible_received",
                "ContractOp::non_fungible_genesis", "ContractOp::non_fungible_sent",
                "ContractOp::non_fungible_received",
            ],
            kani: Kani::No,
            native: "contract states of up to 4 operations with up to 3 outputs each, all sets of own outpoints and transactions",
            reach: &["issue", "receipt", "spending", "several coins in one entry"],
        },
    ],
    findings: &[],
};
