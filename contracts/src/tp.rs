//! Storage providers with arbitrary outcomes, small enough for the verifier.
//! Every write succeeds or fails as chosen; nothing is kept but the course of the
//! transaction.

use std::collections::BTreeSet;

use aluvm::library::{Lib, LibId};
use amplify::confinement::{self, MediumBlob};
use bp::dbc::tapret::TapretCommitment;
use nonasync::persistence::{CloneNoPersistence, Persistence, Persisting};
use rgbcore::validation::ResolveWitness;
use rgbcore::vm::WitnessOrd;
use rgbcore::{
    Assign, AssignmentType, AttachId, BundleId, ContractId, ExposedState, Extension, Genesis, GenesisSeal, GraphSeal,
    Identity, OpId, Opout, Schema, SchemaId, SecretSeal, Transition, TransitionBundle, XChain, XOutpoint, XWitnessId,
};
use rgbstd::containers::{ContentId, ContentRef, ContentSigs, SealWitness, SigBlob, Supplement, TrustLevel};
use rgbstd::interface::{Iface, IfaceClass, IfaceImpl, IfaceRef};
use rgbstd::persistence::{
    ContractStateWrite, IndexProvider, IndexReadError, IndexReadProvider, IndexWriteError, IndexWriteProvider,
    MemState, SchemaIfaces, StashInconsistency, StashProvider, StashProviderError, StashReadProvider, StashWriteProvider, StateProvider,
    StateReadProvider, StateWriteProvider, StoreTransaction, UpdateRes,
};
use strict_types::TypeSystem;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct Refused;
impl std::fmt::Display for Refused {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("refused") }
}
impl std::error::Error for Refused {}

#[derive(Debug)]
pub struct Toy {
    /// The outcomes of the calls.
    pub begins: bool,
    pub writes: bool,
    pub commits: bool,
    /// What happened.
    pub open: bool,
    pub begun: u8,
    pub committed: u8,
    pub rolled: u8,
    pub written: bool,
    /// A begin, a write or a commit out of place.
    pub misused: bool,
}

impl Toy {
    pub fn new(begins: bool, writes: bool, commits: bool) -> Self {
        Toy { begins, writes, commits, open: false, begun: 0, committed: 0, rolled: 0, written: false, misused: false }
    }
    fn write(&mut self) -> Result<(), Refused> {
        self.misused |= !self.open || self.committed > 0;
        self.written = true;
        if self.writes {
            Ok(())
        } else {
            Err(Refused)
        }
    }
}

impl CloneNoPersistence for Toy {
    fn clone_no_persistence(&self) -> Self { Toy { ..*self } }
}
impl Persisting for Toy {
    fn persistence(&self) -> Option<&Persistence<Self>> { None }
    fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { None }
    fn as_mut_persistence(&mut self) -> &mut Option<Persistence<Self>> { unreachable!() }
}

impl StoreTransaction for Toy {
    type TransactionErr = Refused;
    fn begin_transaction(&mut self) -> Result<(), Refused> {
        self.misused |= self.open;
        if !self.begins {
            return Err(Refused);
        }
        self.open = true;
        self.begun += 1;
        Ok(())
    }
    fn commit_transaction(&mut self) -> Result<(), Refused> {
        self.misused |= !self.open || self.committed > 0;
        if !self.commits {
            return Err(Refused);
        }
        self.committed += 1;
        Ok(())
    }
    fn rollback_transaction(&mut self) {
        self.open = false;
        self.rolled += 1;
    }
}

impl StashProvider for Toy {}
impl StateProvider for Toy {}
impl IndexProvider for Toy {}

type SP<T> = Result<T, StashProviderError<Refused>>;
type R<T> = Result<T, Refused>;

impl StashReadProvider for Toy {
    type Error = Refused;
    fn type_system(&self) -> R<&TypeSystem> { Err(Refused) }
    fn lib(&self, _: LibId) -> SP<&Lib> { unreachable!() }
    fn ifaces(&self) -> R<impl Iterator<Item = &Iface>> { Ok(std::iter::empty()) }
    fn iface(&self, _: impl Into<IfaceRef>) -> SP<&Iface> { unreachable!() }
    fn schemata(&self) -> R<impl Iterator<Item = &SchemaIfaces>> { Ok(std::iter::empty()) }
    fn schema(&self, _: SchemaId) -> SP<&SchemaIfaces> { unreachable!() }
    fn schemata_by<C: IfaceClass>(&self) -> R<impl Iterator<Item = &SchemaIfaces>> { Ok(std::iter::empty()) }
    fn impl_for<'a, C: IfaceClass + 'a>(&'a self, _: &'a SchemaIfaces) -> SP<&'a IfaceImpl> { unreachable!() }
    fn geneses(&self) -> R<impl Iterator<Item = &Genesis>> { Ok(std::iter::empty()) }
    fn geneses_by<C: IfaceClass>(&self) -> R<impl Iterator<Item = &Genesis>> { Ok(std::iter::empty()) }
    fn genesis(&self, _: ContractId) -> SP<&Genesis> { unreachable!() }
    fn get_trust(&self, _: &Identity) -> R<TrustLevel> { Err(Refused) }
    fn supplement(&self, _: ContentRef) -> R<Option<&Supplement>> { Ok(None) }
    fn supplements(&self, _: ContentRef) -> R<impl Iterator<Item = Supplement>> { Ok(std::iter::empty()) }
    fn sigs_for(&self, _: &ContentId) -> R<Option<&ContentSigs>> { Ok(None) }
    fn witness_ids(&self) -> R<impl Iterator<Item = XWitnessId>> { Ok(std::iter::empty()) }
    fn bundle_ids(&self) -> R<impl Iterator<Item = BundleId>> { Ok(std::iter::empty()) }
    fn bundle(&self, id: BundleId) -> SP<&TransitionBundle> { Err(StashInconsistency::BundleAbsent(id).into()) }
    fn extension_ids(&self) -> R<impl Iterator<Item = OpId>> { Ok(std::iter::empty()) }
    fn extension(&self, _: OpId) -> SP<&Extension> { unreachable!() }
    fn witness(&self, id: XWitnessId) -> SP<&SealWitness> { Err(StashInconsistency::WitnessAbsent(id).into()) }
    fn taprets(&self) -> R<impl Iterator<Item = (XWitnessId, TapretCommitment)>> { Ok(std::iter::empty()) }
    fn seal_secret(&self, _: XChain<SecretSeal>) -> R<Option<XChain<GraphSeal>>> { Ok(None) }
    fn secret_seals(&self) -> R<impl Iterator<Item = XChain<GraphSeal>>> { Ok(std::iter::empty()) }
}

impl StashWriteProvider for Toy {
    type Error = Refused;
    fn replace_schema(&mut self, _: Schema) -> R<bool> { self.write().map(|_| true) }
    fn replace_iface(&mut self, _: Iface) -> R<bool> { self.write().map(|_| true) }
    fn replace_iimpl(&mut self, _: IfaceImpl) -> R<bool> { self.write().map(|_| true) }
    fn replace_genesis(&mut self, _: Genesis) -> R<bool> { self.write().map(|_| true) }
    fn replace_extension(&mut self, _: Extension) -> R<bool> { self.write().map(|_| true) }
    fn replace_bundle(&mut self, _: TransitionBundle) -> R<bool> { self.write().map(|_| true) }
    fn replace_witness(&mut self, _: SealWitness) -> R<bool> { self.write().map(|_| true) }
    fn replace_attachment(&mut self, _: AttachId, _: MediumBlob) -> R<bool> { self.write().map(|_| true) }
    fn replace_lib(&mut self, _: Lib) -> R<bool> { self.write().map(|_| true) }
    fn consume_types(&mut self, _: TypeSystem) -> R<()> { self.write() }
    fn set_trust(&mut self, _: Identity, _: TrustLevel) -> Result<(), confinement::Error> { unreachable!() }
    fn add_supplement(&mut self, _: Supplement) -> R<()> { self.write() }
    fn import_sigs<I>(&mut self, _: ContentId, _: I) -> R<()>
    where I: IntoIterator<Item = (Identity, SigBlob)> {
        self.write()
    }
    fn add_secret_seal(&mut self, _: XChain<GraphSeal>) -> R<bool> { self.write().map(|_| true) }
}

pub struct Writer<'a>(&'a mut Toy);
impl ContractStateWrite for Writer<'_> {
    type Error = Refused;
    fn add_genesis(&mut self, _: &Genesis) -> R<()> { self.0.write() }
    fn add_transition(&mut self, _: &Transition, _: XWitnessId, _: WitnessOrd) -> R<()> { self.0.write() }
    fn add_extension(&mut self, _: &Extension, _: XWitnessId, _: WitnessOrd) -> R<()> { self.0.write() }
}

impl StateReadProvider for Toy {
    type ContractRead<'a> = <MemState as StateReadProvider>::ContractRead<'a>;
    type Error = Refused;
    fn contract_state(&self, _: ContractId) -> Result<Self::ContractRead<'_>, Refused> { Err(Refused) }
    fn is_valid_witness(&self, _: XWitnessId) -> R<bool> { Ok(true) }
}

impl StateWriteProvider for Toy {
    type ContractWrite<'a> = Writer<'a>;
    type Error = Refused;
    fn register_contract(&mut self, _: &Schema, _: &Genesis) -> R<Writer<'_>> { self.write().map(|_| Writer(self)) }
    fn update_contract(&mut self, _: ContractId) -> R<Option<Writer<'_>>> { self.write().map(|_| Some(Writer(self))) }
    fn update_witnesses(&mut self, _: impl ResolveWitness, _: u32) -> R<UpdateRes> { Err(Refused) }
}

type IR<T> = Result<T, IndexReadError<Refused>>;
type IW<T> = Result<T, IndexWriteError<Refused>>;

impl IndexReadProvider for Toy {
    type Error = Refused;
    fn contracts_assigning(&self, _: BTreeSet<XOutpoint>) -> R<impl Iterator<Item = ContractId> + '_> {
        Ok(std::iter::empty())
    }
    fn public_opouts(&self, _: ContractId) -> IR<BTreeSet<Opout>> { unreachable!() }
    fn opouts_by_outputs(
        &self,
        _: ContractId,
        _: impl IntoIterator<Item = impl Into<XOutpoint>>,
    ) -> IR<BTreeSet<Opout>> {
        unreachable!()
    }
    fn opouts_by_terminals(&self, _: impl IntoIterator<Item = XChain<SecretSeal>>) -> R<BTreeSet<Opout>> {
        Err(Refused)
    }
    fn bundle_id_for_op(&self, _: OpId) -> IR<BundleId> { unreachable!() }
    fn bundle_info(&self, _: BundleId) -> IR<(impl Iterator<Item = XWitnessId>, ContractId)> {
        Err::<(std::iter::Empty<XWitnessId>, ContractId), _>(IndexReadError::Connectivity(Refused))
    }
}

impl IndexWriteProvider for Toy {
    type Error = Refused;
    fn register_contract(&mut self, _: ContractId) -> R<bool> { self.write().map(|_| true) }
    fn register_bundle(&mut self, _: BundleId, _: XWitnessId, _: ContractId) -> IW<bool> {
        self.write().map(|_| true).map_err(IndexWriteError::Connectivity)
    }
    fn register_operation(&mut self, _: OpId, _: BundleId) -> IW<bool> {
        self.write().map(|_| true).map_err(IndexWriteError::Connectivity)
    }
    fn index_genesis_assignments<State: ExposedState>(
        &mut self,
        _: ContractId,
        _: &[Assign<State, GenesisSeal>],
        _: OpId,
        _: AssignmentType,
    ) -> IW<()> {
        self.write().map_err(IndexWriteError::Connectivity)
    }
    fn index_transition_assignments<State: ExposedState>(
        &mut self,
        _: ContractId,
        _: &[Assign<State, GraphSeal>],
        _: OpId,
        _: AssignmentType,
        _: XWitnessId,
    ) -> IW<()> {
        self.write().map_err(IndexWriteError::Connectivity)
    }
}
