//! Real operations, bundles and witnesses used by the native contracts.

use std::collections::BTreeMap;

use amplify::confinement::Confined;
use amplify::{ByteArray, Bytes32, Wrapper};
use bp::seals::txout::{BlindSeal, CloseMethod, TxPtr};
use bp::{LockTime, Outpoint, Tx, TxVer, Txid, Vout};
use rgbcore::{
    AssetTag, AssignmentType, Assignments, AttachId, BlindingFactor, ContractId, DataState,
    Extension, ExtensionType, FungibleState, Genesis, GenesisSeal, GlobalState, GlobalStateType,
    GraphSeal, Input, InputMap, OpId, Operation, Opout, RevealedAttach, RevealedData,
    RevealedValue, SchemaId, Transition, TransitionBundle, TransitionType, TypedAssigns, VoidState,
    XChain,
};
use strict_encoding::StrictDumb;

use crate::toy::view;

pub fn b32(n: u32) -> [u8; 32] {
    let mut a = [0x5Au8; 32];
    a[..4].copy_from_slice(&n.to_be_bytes());
    a
}

pub fn txid(n: u32) -> Txid { Txid::from_byte_array(b32(n)) }
pub fn opid(n: u32) -> OpId { OpId::from_byte_array(b32(n)) }
pub fn contract_id(n: u32) -> ContractId { ContractId::from_byte_array(b32(n)) }
pub fn method(m: u32) -> CloseMethod {
    if m == 0 {
        CloseMethod::OpretFirst
    } else {
        CloseMethod::TapretFirst
    }
}
pub fn aty(n: u32) -> AssignmentType { AssignmentType::with(n as u16) }

/// A blinded seal; `n` selects outpoint and blinding.
pub fn graph_seal(m: u32, n: u32) -> GraphSeal {
    GraphSeal::with_blinding(method(m), TxPtr::Txid(txid(1000 + n / 4)), n % 4, 7000 + n as u64)
}
/// A seal on an output of the witness transaction itself.
pub fn witness_seal(m: u32, n: u32) -> GraphSeal {
    GraphSeal::with_blinding(method(m), TxPtr::WitnessTx, n, 9000 + n as u64)
}
pub fn genesis_seal(m: u32, n: u32) -> GenesisSeal {
    GenesisSeal::with_blinding(method(m), txid(1000 + n / 4), n % 4, 7000 + n as u64)
}

pub fn value(n: u32) -> RevealedValue {
    RevealedValue::with_blinding(
        FungibleState::Bits64(n as u64 * 1000 + 1),
        BlindingFactor::try_from(Bytes32::from(b32(n + 1))).expect("scalar"),
        AssetTag::from_byte_array(b32(77)),
    )
}
pub fn data(n: u32) -> RevealedData {
    RevealedData::with_salt(DataState::from_inner(small_blob(&[n as u8, 1, 2])), n as u128 + 5)
}
pub fn attach(n: u32) -> RevealedAttach {
    RevealedAttach::with_salt(AttachId::from_byte_array(b32(n)), rgbcore::MediaType::Any, n as u64 + 3)
}
pub fn small_blob(b: &[u8]) -> amplify::confinement::SmallBlob {
    amplify::confinement::SmallBlob::try_from(b.to_vec()).unwrap()
}
pub fn data_state(b: &[u8]) -> DataState { DataState::from_inner(small_blob(b)) }

/// A list of assignments of the given state kind (0 rights, 1 fungible, 2 data,
/// 3 attachment), one per `(view kind, seal, state number)`.
pub fn typed<L: rgbcore::ExposedSeal>(
    class: u32,
    items: &[(u32, XChain<L>, u32)],
) -> TypedAssigns<L> {
    match class {
        0 => TypedAssigns::Declarative(Confined::from_iter_checked(
            items.iter().map(|(k, l, _)| view(*k, *l, VoidState::default())),
        )),
        1 => TypedAssigns::Fungible(Confined::from_iter_checked(
            items.iter().map(|(k, l, n)| view(*k, *l, value(*n))),
        )),
        2 => TypedAssigns::Structured(Confined::from_iter_checked(
            items.iter().map(|(k, l, n)| view(*k, *l, data(*n))),
        )),
        _ => TypedAssigns::Attachment(Confined::from_iter_checked(
            items.iter().map(|(k, l, n)| view(*k, *l, attach(*n))),
        )),
    }
}

pub fn assignments<L: rgbcore::ExposedSeal>(
    lists: impl IntoIterator<Item = (AssignmentType, TypedAssigns<L>)>,
) -> Assignments<L> {
    Assignments::from_inner(Confined::from_checked(lists.into_iter().collect::<BTreeMap<_, _>>()))
}

pub fn inputs(outs: &[Opout]) -> rgbcore::Inputs {
    rgbcore::Inputs::from_inner(Confined::from_iter_checked(outs.iter().map(|o| Input::with(*o))))
}

pub fn transition(
    contract: ContractId,
    nonce: u64,
    ty: u16,
    ins: &[Opout],
    assigns: Assignments<GraphSeal>,
) -> Transition {
    let mut t = Transition::strict_dumb();
    t.contract_id = contract;
    t.nonce = nonce;
    t.transition_type = TransitionType::with(ty);
    t.inputs = inputs(ins);
    t.assignments = assigns;
    t
}

pub fn genesis(n: u32, assigns: Assignments<GenesisSeal>) -> Genesis {
    let mut g = Genesis::strict_dumb();
    g.schema_id = SchemaId::from_byte_array(b32(500));
    g.timestamp = n as i64;
    g.assignments = assigns;
    g
}

pub fn extension(contract: ContractId, nonce: u64, assigns: Assignments<GenesisSeal>) -> Extension {
    let mut e = Extension::strict_dumb();
    e.contract_id = contract;
    e.nonce = nonce;
    e.extension_type = ExtensionType::with(3);
    e.assignments = assigns;
    e
}

pub fn globals(items: &[(u16, Vec<Vec<u8>>)]) -> GlobalState {
    let mut g = GlobalState::default();
    for (ty, vals) in items {
        for v in vals {
            g.add_state(GlobalStateType::with(*ty), data_state(v)).unwrap();
        }
    }
    g
}

pub fn input_map(entries: &[(u32, OpId)]) -> InputMap {
    InputMap::from_inner(Confined::from_checked(
        entries.iter().map(|(vin, id)| (Vout::from_u32(*vin), *id)).collect::<BTreeMap<_, _>>(),
    ))
}

pub fn bundle(m: CloseMethod, entries: &[(u32, OpId)], known: Vec<Transition>) -> TransitionBundle {
    TransitionBundle {
        close_method: m,
        input_map: input_map(entries),
        known_transitions: Confined::from_checked(
            known.into_iter().map(|t| (t.id(), t)).collect::<BTreeMap<_, _>>(),
        ),
    }
}

pub fn tx(n: u32) -> Tx {
    Tx {
        version: TxVer::V2,
        inputs: Confined::default(),
        outputs: Confined::default(),
        lock_time: LockTime::from_consensus_u32(n),
    }
}

/// Full structural dump; range proof placeholders are random and left out.
pub fn dbg<T: std::fmt::Debug>(t: &T) -> String {
    let full = format!("{t:?}");
    let mut out = String::new();
    let mut rest = full.as_str();
    while let Some(i) = rest.find("NoiseDumb(") {
        out.push_str(&rest[..i]);
        rest = &rest[i..];
        let end = rest.find(')').unwrap_or(rest.len());
        rest = &rest[end..];
    }
    out.push_str(rest);
    out
}

pub fn outpoint(n: u32) -> Outpoint { Outpoint::new(txid(n / 4), n % 4) }
#[allow(unused)]
fn _t(_: BlindSeal<Txid>) {}

/// Merkle proofs which differ in the position field.
pub fn mpc_proof(n: u32) -> commit_verify::mpc::MerkleProof {
    use strict_encoding::{StreamReader, StreamWriter, StrictDecode, StrictEncode, StrictReader, StrictWriter};
    let w = StrictWriter::with(StreamWriter::in_memory::<{ u16::MAX as usize }>());
    let w = commit_verify::mpc::MerkleProof::strict_dumb().strict_encode(w).unwrap();
    let mut bytes = w.unbox().unconfine();
    bytes[1] = n as u8;
    let mut r = StrictReader::with(StreamReader::cursor::<{ u16::MAX as usize }>(bytes));
    commit_verify::mpc::MerkleProof::strict_decode(&mut r).unwrap()
}

pub fn client_bundle(n: u32, b: TransitionBundle) -> rgbstd::containers::ClientBundle {
    use bp::dbc::opret::OpretProof;
    use bp::dbc::tapret::TapretProof;
    use rgbcore::validation::DbcProof;
    let dbc = match b.close_method {
        CloseMethod::OpretFirst => DbcProof::Opret(OpretProof::strict_dumb()),
        CloseMethod::TapretFirst => DbcProof::Tapret(TapretProof::strict_dumb()),
    };
    rgbstd::containers::ClientBundle::new(mpc_proof(n), dbc, b)
}

/// Witness bundle over one or two transition bundles of different methods.
pub fn witness_bundle(
    w: rgbstd::containers::XPubWitness,
    mut bundles: Vec<TransitionBundle>,
) -> rgbstd::containers::WitnessBundle {
    let second = if bundles.len() > 1 { bundles.pop() } else { None };
    let wb = rgbstd::containers::WitnessBundle::with(w, client_bundle(1, bundles.pop().unwrap()));
    match second {
        None => wb,
        Some(b) => wb.into_double(client_bundle(2, b)).unwrap(),
    }
}

pub fn consignment<const T: bool>(
    g: Genesis,
    terminals: &[(rgbcore::BundleId, XChain<rgbcore::SecretSeal>)],
    bundles: Vec<rgbstd::containers::WitnessBundle>,
    extensions: Vec<Extension>,
) -> rgbstd::containers::Consignment<T> {
    let mut c = rgbstd::containers::Consignment::<T>::strict_dumb();
    c.transfer = T;
    c.genesis = g;
    c.terminals = Confined::from_checked(terminals.iter().copied().collect::<BTreeMap<_, _>>());
    c.bundles = Confined::from_iter_checked(bundles);
    c.extensions = Confined::from_iter_checked(extensions);
    c
}

/// Commitment block over `(contract number, message)` pairs, of which the listed
/// contracts are revealed (all when the list is empty).
pub fn merkle_block(msgs: &[(u32, [u8; 32])], reveal: &[u32]) -> commit_verify::mpc::MerkleBlock {
    use commit_verify::mpc::{MerkleBlock, MerkleTree, Message, MultiSource, ProtocolId};
    use commit_verify::TryCommitVerify;
    let mut src = MultiSource::with_static_entropy(42);
    src.messages = Confined::from_checked(
        msgs.iter()
            .map(|(c, m)| (ProtocolId::from(contract_id(*c).to_byte_array()), Message::from(*m)))
            .collect::<BTreeMap<_, _>>(),
    );
    let mut block = MerkleBlock::from(MerkleTree::try_commit(&src).unwrap());
    if !reveal.is_empty() {
        let ids: Vec<_> =
            reveal.iter().map(|c| ProtocolId::from(contract_id(*c).to_byte_array())).collect();
        block.conceal_except(ids).unwrap();
    }
    block
}

pub fn output_seal(m: u32, n: u32) -> rgbcore::XOutputSeal {
    XChain::Bitcoin(rgbcore::OutputSeal::with(method(m), txid(1000 + n / 4), n % 4))
}
