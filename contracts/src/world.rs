//! A small world of real contracts: a schema with one state of each kind, its
//! interface, issued contracts, a chain of witness transactions with opret
//! commitments, and stocks trading over it.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

use amplify::confinement::Confined;
use amplify::{ByteArray, Bytes32, Wrapper as _};
use bp::dbc::opret::OpretProof;
use bp::dbc::Anchor;
use bp::seals::txout::CloseMethod;
use bp::{
    LockTime, Outpoint, Sats, ScriptPubkey, SeqNo, SigScript, Tx, TxIn, TxOut, TxVer, Txid, Witness,
};
use commit_verify::mpc::{MerkleBlock, MerkleTree, Message, MultiSource, ProtocolId};
use commit_verify::TryCommitVerify;
use rgbcore::validation::{ResolveWitness, WitnessResolverError};
use rgbcore::vm::{WitnessOrd, WitnessPos, XWitnessTx};
use rgbcore::{
    AssetTag, AssignmentType, BlindingFactor, ContractId, FungibleType, GenesisSchema, GlobalStateSchema,
    GlobalStateType, GraphSeal, Identity, MetaType, Occurrences, OpId, OwnedStateSchema,
    Schema, Transition, TransitionSchema, TransitionType, XChain, XOutputSeal, XWitnessId,
};
use rgbstd::containers::{
    AnchorSet, Batch, BundleDichotomy, Fascia, Kit, PubWitness, TransitionInfo, ValidContract, ValidKit,
};
use rgbstd::interface::{
    AssignIface, ContractBuilder, GenesisIface, GlobalIface, Iface, IfaceImpl, Modifier, NamedField,
    OwnedIface, Req, TransitionIface, VerNo,
};
use nonasync::persistence::CloneNoPersistence;
use rgbstd::persistence::Stock;
use rgbstd::containers::BuilderSeal;
use rgbstd::stl::StandardTypes;
use strict_encoding::{FieldName, StrictDumb, TypeName};
use strict_types::{SemId, TypeSystem};

use crate::fx;

pub const AMOUNT: AssignmentType = AssignmentType::with(4000);
pub const DATA: AssignmentType = AssignmentType::with(4001);
pub const RIGHT: AssignmentType = AssignmentType::with(4002);
pub const ATTACH: AssignmentType = AssignmentType::with(4003);
/// A second fungible state.
pub const OTHER: AssignmentType = AssignmentType::with(4004);
pub const KINDS: [(AssignmentType, &str); 5] = [
    (AMOUNT, "assetOwner"),
    (DATA, "tokenOwner"),
    (RIGHT, "updateRight"),
    (ATTACH, "fileOwner"),
    (OTHER, "bonusOwner"),
];
pub const NOTE: GlobalStateType = GlobalStateType::with(2000);
pub const MARK: GlobalStateType = GlobalStateType::with(2001);
pub const META: MetaType = MetaType::with(1000);
pub const TRANSFER: TransitionType = TransitionType::with(10000);
pub const MINT: TransitionType = TransitionType::with(10001);

pub struct Kinds {
    pub schema: Schema,
    pub iface: Iface,
    pub iimpl: IfaceImpl,
    pub types: TypeSystem,
    pub amount_ty: SemId,
}

pub fn name(s: &str) -> FieldName { FieldName::try_from(s.to_owned()).unwrap() }

fn occ_all() -> impl Iterator<Item = (AssignmentType, Occurrences)> {
    KINDS.iter().map(|(t, _)| (*t, Occurrences::NoneOrMore))
}

/// `n` selects one of several schemata which differ in their name; the last one
/// requires metadata in the genesis.
fn make(n: u32) -> Kinds {
    let st = StandardTypes::new();
    let amount_ty = st.get("RGBContract.Amount");
    let alloc_ty = st.get("RGBContract.Allocation");
    let types = st.type_system();
    let globals = || {
        Confined::from_checked(BTreeMap::from([(NOTE, Occurrences::NoneOrMore), (MARK, Occurrences::NoneOrOnce)]))
    };
    let transition = || TransitionSchema {
        globals: globals(),
        inputs: Confined::from_checked(occ_all().collect::<BTreeMap<_, _>>()),
        assignments: Confined::from_checked(occ_all().collect::<BTreeMap<_, _>>()),
        ..Default::default()
    };
    fn genesis_meta_of<T: Ord>(n: u32, t: T) -> amplify::confinement::TinyOrdSet<T> {
        Confined::from_checked(if n == 2 { BTreeSet::from([t]) } else { BTreeSet::new() })
    }
    let mut mint = transition();
    mint.metadata = Confined::from_checked(BTreeSet::from([META]));
    let schema = Schema {
        ffv: Default::default(),
        flags: Default::default(),
        name: TypeName::try_from(format!("World{n}")).unwrap(),
        timestamp: 1_700_000_000,
        developer: Identity::default(),
        meta_types: Confined::from_checked(BTreeMap::from([(META, amount_ty)])),
        global_types: Confined::from_checked(BTreeMap::from([
            (NOTE, GlobalStateSchema::many(amount_ty)),
            (MARK, GlobalStateSchema::once(amount_ty)),
        ])),
        owned_types: Confined::from_checked(BTreeMap::from([
            (AMOUNT, OwnedStateSchema::Fungible(FungibleType::Unsigned64Bit)),
            (DATA, OwnedStateSchema::Structured(alloc_ty)),
            (RIGHT, OwnedStateSchema::Declarative),
            (ATTACH, OwnedStateSchema::Attachment(rgbcore::MediaType::Any)),
            (OTHER, OwnedStateSchema::Fungible(FungibleType::Unsigned64Bit)),
        ])),
        valency_types: Default::default(),
        genesis: GenesisSchema {
            metadata: genesis_meta_of(n, META),
            globals: globals(),
            assignments: Confined::from_checked(occ_all().collect::<BTreeMap<_, _>>()),
            ..Default::default()
        },
        extensions: Default::default(),
        transitions: Confined::from_checked(BTreeMap::from([(TRANSFER, transition()), (MINT, mint)])),
        reserved: Default::default(),
    };
    let args = || {
        Confined::from_checked(
            KINDS.iter().map(|(_, n)| (name(n), Occurrences::NoneOrMore)).collect::<BTreeMap<_, _>>(),
        )
    };
    let gargs = || {
        Confined::from_checked(BTreeMap::from([
            (name("note"), Occurrences::NoneOrMore),
            (name("mark"), Occurrences::NoneOrOnce),
        ]))
    };
    let tr = |meta: bool, default: &str| TransitionIface {
        modifier: Modifier::Final,
        optional: false,
        metadata: if meta {
            Confined::from_checked(BTreeSet::from([name("reason")]))
        } else {
            Default::default()
        },
        globals: gargs(),
        inputs: args(),
        assignments: args(),
        valencies: Default::default(),
        errors: Default::default(),
        default_assignment: Some(name(default)),
    };
    let owned = |o: OwnedIface| AssignIface::public(o, Req::NoneOrMore);
    let iface = Iface {
        version: VerNo::V1,
        name: TypeName::try_from(format!("Face{n}")).unwrap(),
        inherits: Default::default(),
        timestamp: 1_700_000_000,
        metadata: Confined::from_checked(BTreeMap::from([(name("reason"), amount_ty)])),
        global_state: Confined::from_checked(BTreeMap::from([
            (name("note"), GlobalIface::none_or_many(amount_ty)),
            (name("mark"), GlobalIface::optional(amount_ty)),
        ])),
        assignments: Confined::from_checked(BTreeMap::from([
            (name("assetOwner"), owned(OwnedIface::Amount)),
            (name("tokenOwner"), owned(OwnedIface::Data(alloc_ty))),
            (name("updateRight"), owned(OwnedIface::Rights)),
            (name("fileOwner"), owned(OwnedIface::AnyAttach)),
            (name("bonusOwner"), owned(OwnedIface::Amount)),
        ])),
        valencies: Default::default(),
        genesis: GenesisIface {
            modifier: Modifier::Final,
            metadata: genesis_meta_of(n, name("reason")),
            globals: gargs(),
            assignments: args(),
            valencies: Default::default(),
            errors: Default::default(),
        },
        transitions: Confined::from_checked(BTreeMap::from([
            (name("transfer"), tr(false, "assetOwner")),
            (name("mint"), tr(true, "assetOwner")),
        ])),
        extensions: Default::default(),
        default_operation: Some(name("transfer")),
        errors: Default::default(),
        developer: Identity::default(),
    };
    let iimpl = IfaceImpl {
        version: VerNo::V1,
        schema_id: schema.schema_id(),
        iface_id: iface.iface_id(),
        timestamp: 1_700_000_000,
        metadata: Confined::from_checked(BTreeSet::from([NamedField::with(META, name("reason"))])),
        global_state: Confined::from_checked(BTreeSet::from([
            NamedField::with(NOTE, name("note")),
            NamedField::with(MARK, name("mark")),
        ])),
        assignments: Confined::from_checked(
            KINDS.iter().map(|(t, n)| NamedField::with(*t, name(n))).collect::<BTreeSet<_>>(),
        ),
        valencies: Default::default(),
        transitions: Confined::from_checked(BTreeSet::from([
            NamedField::with(TRANSFER, name("transfer")),
            NamedField::with(MINT, name("mint")),
        ])),
        extensions: Default::default(),
        errors: Default::default(),
        developer: Identity::default(),
    };
    Kinds { schema, iface, iimpl, types, amount_ty }
}

pub fn kinds(n: u32) -> &'static Kinds {
    static A: OnceLock<[Kinds; 3]> = OnceLock::new();
    &A.get_or_init(|| [make(0), make(1), make(2)])[n as usize]
}

pub fn kit(n: u32) -> ValidKit {
    let k = kinds(n);
    let mut kit = Kit::default();
    kit.schemata.push(k.schema.clone()).unwrap();
    kit.ifaces.push(k.iface.clone()).unwrap();
    kit.iimpls.push(k.iimpl.clone()).unwrap();
    kit.types = k.types.clone();
    kit.validate().unwrap_or_else(|_| panic!("kit"))
}

pub fn tag(n: u32) -> AssetTag { AssetTag::from_byte_array(fx::b32(600 + n)) }
pub fn blinding(n: u32) -> BlindingFactor { BlindingFactor::try_from(Bytes32::from(fx::b32(700 + n))).unwrap() }

/// One piece of owned state: kind, seal number and value.
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Coin {
    pub kind: usize,
    pub seal: u32,
    pub value: u64,
}

pub fn alloc(v: u64) -> rgbstd::invoice::Allocation {
    rgbstd::invoice::Allocation::with(v as u32, 1u64)
}

/// Contract number `n` with the coins; asset tags differ among contracts. Seals
/// from 8 on are closed by tapret.
pub fn issue(sch: u32, n: u32, coins: &[Coin], method: CloseMethod) -> ValidContract {
    let k = kinds(sch);
    let mut b = ContractBuilder::deterministic(
        Identity::default(),
        k.iface.clone(),
        k.schema.clone(),
        k.iimpl.clone(),
        k.types.clone(),
        Default::default(),
    )
    .add_asset_tag("assetOwner", tag(2 * n))
    .unwrap()
    .add_asset_tag("bonusOwner", tag(2 * n + 1))
    .unwrap();
    for (i, c) in coins.iter().enumerate() {
        let method = match method {
            CloseMethod::OpretFirst if c.seal >= 8 => CloseMethod::TapretFirst,
            m => m,
        };
        let seal = BuilderSeal::Revealed(XChain::Bitcoin(rgbcore::GenesisSeal::with_blinding(
            method,
            fx::txid(c.seal),
            0u32,
            100 * n as u64 + i as u64,
        )));
        let field = KINDS[c.kind].1;
        b = match c.kind {
            0 | 4 => b.add_fungible_state_det(field, seal, c.value, blinding(i as u32)).unwrap(),
            1 => b
                .add_data_det(
                    field,
                    seal,
                    rgbcore::RevealedData::with_salt(rgbcore::DataState::from(alloc(c.value)), i as u128),
                )
                .unwrap(),
            2 => b.add_owned_state_det(field, seal, rgbstd::persistence::PersistedState::Void).unwrap(),
            _ => b.add_attachment_det(field, seal, fx::attach(c.value as u32)).unwrap(),
        };
    }
    b.issue_contract_det(1_700_000_000 + n as i64).unwrap()
}

/// The outpoint of seal number `n` of an issued contract.
pub fn genesis_outpoint(n: u32) -> Outpoint { Outpoint::new(fx::txid(n), 0u32) }

#[derive(Clone, Default)]
pub struct Chain {
    pub txs: BTreeMap<Txid, Tx>,
    pub ord: BTreeMap<Txid, WitnessOrd>,
    /// Queries about these fail.
    pub down: BTreeSet<Txid>,
}

impl ResolveWitness for Chain {
    fn resolve_pub_witness(&self, id: XWitnessId) -> Result<XWitnessTx, WitnessResolverError> {
        let XChain::Bitcoin(txid) = id else { return Err(WitnessResolverError::Unknown(id)) };
        if self.down.contains(&txid) {
            return Err(WitnessResolverError::Other(id, "down".into()));
        }
        self.txs.get(&txid).cloned().map(XChain::Bitcoin).ok_or(WitnessResolverError::Unknown(id))
    }
    fn resolve_pub_witness_ord(&self, id: XWitnessId) -> Result<WitnessOrd, WitnessResolverError> {
        let XChain::Bitcoin(txid) = id else { return Err(WitnessResolverError::Unknown(id)) };
        if self.down.contains(&txid) {
            return Err(WitnessResolverError::Other(id, "down".into()));
        }
        self.ord.get(&txid).copied().ok_or(WitnessResolverError::Unknown(id))
    }
}

pub fn mined(h: u32) -> WitnessOrd {
    WitnessOrd::Mined(WitnessPos::bitcoin(std::num::NonZeroU32::new(h + 1).unwrap(), 1_600_000_000 + h as i64).unwrap())
}

/// Commits transitions to a witness transaction spending their inputs.
pub fn witness(lock: u32, infos: Vec<TransitionInfo>) -> (Tx, Fascia) {
    let mut prevs = Vec::<Outpoint>::new();
    for i in &infos {
        for s in i.inputs.iter() {
            let o = raw(*s);
            if !prevs.contains(&o) {
                prevs.push(o);
            }
        }
    }
    prevs.sort();
    let mut per = BTreeMap::<ContractId, (Vec<(u32, OpId)>, Vec<Transition>)>::new();
    for i in infos {
        let e = per.entry(i.transition.contract_id).or_default();
        for s in i.inputs.iter() {
            let o = raw(*s);
            let vin = prevs.iter().position(|p| *p == o).unwrap();
            e.0.push((vin as u32, i.id));
        }
        e.1.push(i.transition.clone());
    }
    let bundles: BTreeMap<ContractId, _> =
        per.into_iter().map(|(c, (m, t))| (c, fx::bundle(CloseMethod::OpretFirst, &m, t))).collect();
    let mut src = MultiSource::with_static_entropy(lock as u64);
    src.messages = Confined::from_checked(
        bundles
            .iter()
            .map(|(c, b)| (ProtocolId::from(*c), Message::from(b.bundle_id())))
            .collect::<BTreeMap<_, _>>(),
    );
    let tree = MerkleTree::try_commit(&src).unwrap();
    let commitment = commit_verify::CommitId::commit_id(&tree);
    let tx = Tx {
        version: TxVer::V2,
        inputs: Confined::from_iter_checked(prevs.iter().map(|o| TxIn {
            prev_output: *o,
            sig_script: SigScript::empty(),
            sequence: SeqNo::from_consensus_u32(0),
            witness: Witness::default(),
        })),
        outputs: Confined::from_iter_checked(
            std::iter::once(TxOut::new(ScriptPubkey::op_return(commitment.as_slice()), Sats::ZERO)).chain(
                (0..4u8).map(|i| TxOut::new(ScriptPubkey::op_return(&[i]), Sats::from(1000u32))),
            ),
        ),
        lock_time: LockTime::from_consensus_u32(lock),
    };
    let fascia = Fascia {
        witness: XChain::Bitcoin(PubWitness::Tx(tx.clone())),
        anchor: AnchorSet::Opret(Anchor::new(MerkleBlock::from(tree), OpretProof::default())),
        bundles: Confined::from_checked(
            bundles.into_iter().map(|(c, b)| (c, BundleDichotomy::with(b, None))).collect::<BTreeMap<_, _>>(),
        ),
    };
    (tx, fascia)
}

pub fn raw(o: rgbcore::XOutpoint) -> Outpoint {
    let XChain::Bitcoin(o) = o.into_inner() else { panic!("bitcoin only") };
    o
}

pub fn seal_outpoint(s: &XOutputSeal) -> Outpoint { raw(s.to_outpoint()) }

pub fn txid_of(w: XWitnessId) -> Txid {
    let XChain::Bitcoin(t) = w else { panic!("bitcoin only") };
    t
}

impl Chain {
    /// Puts the batch into a transaction and the transaction into the chain.
    pub fn publish(&mut self, lock: u32, ord: WitnessOrd, infos: Vec<TransitionInfo>) -> Fascia {
        let (tx, fascia) = witness(lock, infos);
        let id = tx.txid();
        self.txs.insert(id, tx);
        self.ord.insert(id, ord);
        fascia
    }
}

pub fn infos(b: Batch) -> Vec<TransitionInfo> { b.into_iter().collect() }

pub fn stock() -> Stock {
    thread_local!(static MADE: Stock = {
        let mut s = Stock::in_memory();
        s.import_kit(kit(0)).unwrap();
        s.import_kit(kit(1)).unwrap();
        s
    });
    MADE.with(|s| s.clone_no_persistence())
}

pub fn graph(vout: u32, n: u64) -> XChain<GraphSeal> {
    XChain::Bitcoin(GraphSeal::with_blinded_vout(CloseMethod::OpretFirst, vout, n))
}

#[allow(unused)]
fn _dumb() -> Kit { Kit::strict_dumb() }
