//! Storage providers which record every transactional and writing call, and can
//! fail at any of them. They wrap the in-memory providers.

use std::cell::RefCell;
use std::collections::BTreeSet;
use std::fmt::{self, Debug, Formatter};
use std::rc::Rc;

use aluvm::library::{Lib, LibId};
use amplify::confinement::{self, MediumBlob};
use bp::dbc::tapret::TapretCommitment;
use nonasync::persistence::{CloneNoPersistence, Persistence, Persisting};
use rgbcore::validation::ResolveWitness;
use rgbcore::{
    Assign, AssignmentType, AttachId, BundleId, ContractId, ExposedState, Extension, Genesis, GenesisSeal, GraphSeal,
    Identity, OpId, Opout, Schema, SchemaId, SecretSeal, TransitionBundle, XChain, XOutpoint, XWitnessId,
};
use rgbstd::containers::{ContentId, ContentRef, ContentSigs, SealWitness, SigBlob, Supplement, TrustLevel};
use rgbstd::interface::{Iface, IfaceClass, IfaceImpl, IfaceRef};
use rgbstd::persistence::{
    IndexProvider, IndexReadError, IndexReadProvider, IndexWriteError, IndexWriteProvider, MemError, MemIndex,
    MemStash, MemState, SchemaIfaces, StashProvider, StashProviderError, StashReadProvider, StashWriteProvider,
    StateProvider, StateReadProvider, StateWriteProvider, StoreTransaction, UpdateRes,
};
use strict_types::TypeSystem;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Part {
    Stash,
    State,
    Index,
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Call {
    Begin,
    Commit,
    Rollback,
    Write,
}

/// Calls with their outcome, and the position of the call which fails.
#[derive(Default, Debug)]
pub struct Log {
    pub calls: Vec<(Part, Call, bool)>,
    pub fail_at: Option<usize>,
    pub count: usize,
}

pub type Shared = Rc<RefCell<Log>>;

pub struct Rec<M> {
    pub part: Part,
    pub log: Shared,
    pub mem: M,
    persistence: Option<Persistence<Self>>,
}

impl<M> Debug for Rec<M> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self.part) }
}

fn failure() -> MemError { MemError::Confinement(confinement::Error::OutOfBoundary { index: 0, len: 0 }) }

impl<M> Rec<M> {
    pub fn new(part: Part, log: &Shared, mem: M) -> Self {
        Rec { part, log: log.clone(), mem, persistence: None }
    }
    /// Fails when the injected fault is here.
    fn call(&self, c: Call) -> Result<(), MemError> {
        let mut l = self.log.borrow_mut();
        let n = l.count;
        l.count += 1;
        let bad = l.fail_at == Some(n);
        l.calls.push((self.part, c, !bad));
        if bad {
            Err(failure())
        } else {
            Ok(())
        }
    }
}

impl<M: CloneNoPersistence> CloneNoPersistence for Rec<M> {
    fn clone_no_persistence(&self) -> Self { Rec::new(self.part, &self.log, self.mem.clone_no_persistence()) }
}

impl<M> Persisting for Rec<M> {
    fn persistence(&self) -> Option<&Persistence<Self>> { self.persistence.as_ref() }
    fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { self.persistence.as_mut() }
    fn as_mut_persistence(&mut self) -> &mut Option<Persistence<Self>> { &mut self.persistence }
}

impl<M> StoreTransaction for Rec<M> {
    type TransactionErr = MemError;
    fn begin_transaction(&mut self) -> Result<(), MemError> { self.call(Call::Begin) }
    fn commit_transaction(&mut self) -> Result<(), MemError> { self.call(Call::Commit) }
    fn rollback_transaction(&mut self) { self.log.borrow_mut().calls.push((self.part, Call::Rollback, true)) }
}

impl StashProvider for Rec<MemStash> {}
impl StateProvider for Rec<MemState> {}
impl IndexProvider for Rec<MemIndex> {}

type SE<P> = <P as StashReadProvider>::Error;
type SR<T> = Result<T, SE<MemStash>>;
type SP<T> = Result<T, StashProviderError<SE<MemStash>>>;

impl StashReadProvider for Rec<MemStash> {
    type Error = SE<MemStash>;
    fn type_system(&self) -> SR<&TypeSystem> { self.mem.type_system() }
    fn lib(&self, id: LibId) -> SP<&Lib> { self.mem.lib(id) }
    fn ifaces(&self) -> SR<impl Iterator<Item = &Iface>> { self.mem.ifaces() }
    fn iface(&self, iface: impl Into<IfaceRef>) -> SP<&Iface> { self.mem.iface(iface) }
    fn schemata(&self) -> SR<impl Iterator<Item = &SchemaIfaces>> { self.mem.schemata() }
    fn schema(&self, id: SchemaId) -> SP<&SchemaIfaces> { self.mem.schema(id) }
    fn schemata_by<C: IfaceClass>(&self) -> SR<impl Iterator<Item = &SchemaIfaces>> { self.mem.schemata_by::<C>() }
    fn impl_for<'a, C: IfaceClass + 'a>(&'a self, s: &'a SchemaIfaces) -> SP<&'a IfaceImpl> {
        self.mem.impl_for::<C>(s)
    }
    fn geneses(&self) -> SR<impl Iterator<Item = &Genesis>> { self.mem.geneses() }
    fn geneses_by<C: IfaceClass>(&self) -> SR<impl Iterator<Item = &Genesis>> { self.mem.geneses_by::<C>() }
    fn genesis(&self, id: ContractId) -> SP<&Genesis> { self.mem.genesis(id) }
    fn get_trust(&self, i: &Identity) -> SR<TrustLevel> { self.mem.get_trust(i) }
    fn supplement(&self, r: ContentRef) -> SR<Option<&Supplement>> { self.mem.supplement(r) }
    fn supplements(&self, r: ContentRef) -> SR<impl Iterator<Item = Supplement>> { self.mem.supplements(r) }
    fn sigs_for(&self, id: &ContentId) -> SR<Option<&ContentSigs>> { self.mem.sigs_for(id) }
    fn witness_ids(&self) -> SR<impl Iterator<Item = XWitnessId>> { self.mem.witness_ids() }
    fn bundle_ids(&self) -> SR<impl Iterator<Item = BundleId>> { self.mem.bundle_ids() }
    fn bundle(&self, id: BundleId) -> SP<&TransitionBundle> { self.mem.bundle(id) }
    fn extension_ids(&self) -> SR<impl Iterator<Item = OpId>> { self.mem.extension_ids() }
    fn extension(&self, id: OpId) -> SP<&Extension> { self.mem.extension(id) }
    fn witness(&self, id: XWitnessId) -> SP<&SealWitness> { self.mem.witness(id) }
    fn taprets(&self) -> SR<impl Iterator<Item = (XWitnessId, TapretCommitment)>> { self.mem.taprets() }
    fn seal_secret(&self, s: XChain<SecretSeal>) -> SR<Option<XChain<GraphSeal>>> { self.mem.seal_secret(s) }
    fn secret_seals(&self) -> SR<impl Iterator<Item = XChain<GraphSeal>>> { self.mem.secret_seals() }
}

impl StashWriteProvider for Rec<MemStash> {
    type Error = MemError;
    fn replace_schema(&mut self, x: Schema) -> Result<bool, MemError> {
        self.call(Call::Write)?;
        self.mem.replace_schema(x)
    }
    fn replace_iface(&mut self, x: Iface) -> Result<bool, MemError> {
        self.call(Call::Write)?;
        self.mem.replace_iface(x)
    }
    fn replace_iimpl(&mut self, x: IfaceImpl) -> Result<bool, MemError> {
        self.call(Call::Write)?;
        self.mem.replace_iimpl(x)
    }
    fn replace_genesis(&mut self, x: Genesis) -> Result<bool, MemError> {
        self.call(Call::Write)?;
        self.mem.replace_genesis(x)
    }
    fn replace_extension(&mut self, x: Extension) -> Result<bool, MemError> {
        self.call(Call::Write)?;
        self.mem.replace_extension(x)
    }
    fn replace_bundle(&mut self, x: TransitionBundle) -> Result<bool, MemError> {
        self.call(Call::Write)?;
        self.mem.replace_bundle(x)
    }
    fn replace_witness(&mut self, x: SealWitness) -> Result<bool, MemError> {
        self.call(Call::Write)?;
        self.mem.replace_witness(x)
    }
    fn replace_attachment(&mut self, id: AttachId, x: MediumBlob) -> Result<bool, MemError> {
        self.call(Call::Write)?;
        self.mem.replace_attachment(id, x)
    }
    fn replace_lib(&mut self, x: Lib) -> Result<bool, MemError> {
        self.call(Call::Write)?;
        self.mem.replace_lib(x)
    }
    fn consume_types(&mut self, x: TypeSystem) -> Result<(), MemError> {
        self.call(Call::Write)?;
        self.mem.consume_types(x)
    }
    fn set_trust(&mut self, i: Identity, t: TrustLevel) -> Result<(), confinement::Error> { self.mem.set_trust(i, t) }
    fn add_supplement(&mut self, x: Supplement) -> Result<(), MemError> {
        self.call(Call::Write)?;
        self.mem.add_supplement(x)
    }
    // Signatures which can't be stored are skipped by design, thus no faults here
    fn import_sigs<I>(&mut self, id: ContentId, sigs: I) -> Result<(), MemError>
    where I: IntoIterator<Item = (Identity, SigBlob)> {
        self.mem.import_sigs(id, sigs)
    }
    fn add_secret_seal(&mut self, x: XChain<GraphSeal>) -> Result<bool, MemError> {
        self.call(Call::Write)?;
        self.mem.add_secret_seal(x)
    }
}

impl StateReadProvider for Rec<MemState> {
    type ContractRead<'a> = <MemState as StateReadProvider>::ContractRead<'a>;
    type Error = <MemState as StateReadProvider>::Error;
    fn contract_state(&self, id: ContractId) -> Result<Self::ContractRead<'_>, Self::Error> {
        self.mem.contract_state(id)
    }
    fn is_valid_witness(&self, id: XWitnessId) -> Result<bool, Self::Error> { self.mem.is_valid_witness(id) }
}

impl StateWriteProvider for Rec<MemState> {
    type ContractWrite<'a> = <MemState as StateWriteProvider>::ContractWrite<'a>;
    type Error = MemError;
    fn register_contract(&mut self, s: &Schema, g: &Genesis) -> Result<Self::ContractWrite<'_>, MemError> {
        self.call(Call::Write)?;
        self.mem.register_contract(s, g)
    }
    fn update_contract(&mut self, id: ContractId) -> Result<Option<Self::ContractWrite<'_>>, MemError> {
        self.call(Call::Write)?;
        self.mem.update_contract(id)
    }
    fn update_witnesses(&mut self, r: impl ResolveWitness, after: u32) -> Result<UpdateRes, MemError> {
        self.mem.update_witnesses(r, after)
    }
}

impl IndexReadProvider for Rec<MemIndex> {
    type Error = <MemIndex as IndexReadProvider>::Error;
    fn contracts_assigning(
        &self,
        o: BTreeSet<XOutpoint>,
    ) -> Result<impl Iterator<Item = ContractId> + '_, Self::Error> {
        self.mem.contracts_assigning(o)
    }
    fn public_opouts(&self, id: ContractId) -> Result<BTreeSet<Opout>, IndexReadError<Self::Error>> {
        self.mem.public_opouts(id)
    }
    fn opouts_by_outputs(
        &self,
        id: ContractId,
        o: impl IntoIterator<Item = impl Into<XOutpoint>>,
    ) -> Result<BTreeSet<Opout>, IndexReadError<Self::Error>> {
        self.mem.opouts_by_outputs(id, o)
    }
    fn opouts_by_terminals(
        &self,
        t: impl IntoIterator<Item = XChain<SecretSeal>>,
    ) -> Result<BTreeSet<Opout>, Self::Error> {
        self.mem.opouts_by_terminals(t)
    }
    fn bundle_id_for_op(&self, id: OpId) -> Result<BundleId, IndexReadError<Self::Error>> {
        self.mem.bundle_id_for_op(id)
    }
    fn bundle_info(
        &self,
        id: BundleId,
    ) -> Result<(impl Iterator<Item = XWitnessId>, ContractId), IndexReadError<Self::Error>> {
        self.mem.bundle_info(id)
    }
}

impl IndexWriteProvider for Rec<MemIndex> {
    type Error = MemError;
    fn register_contract(&mut self, id: ContractId) -> Result<bool, MemError> {
        self.call(Call::Write)?;
        self.mem.register_contract(id)
    }
    fn register_bundle(
        &mut self,
        b: BundleId,
        w: XWitnessId,
        c: ContractId,
    ) -> Result<bool, IndexWriteError<MemError>> {
        self.call(Call::Write).map_err(IndexWriteError::Connectivity)?;
        self.mem.register_bundle(b, w, c)
    }
    fn register_operation(&mut self, o: OpId, b: BundleId) -> Result<bool, IndexWriteError<MemError>> {
        self.call(Call::Write).map_err(IndexWriteError::Connectivity)?;
        self.mem.register_operation(o, b)
    }
    fn index_genesis_assignments<State: ExposedState>(
        &mut self,
        c: ContractId,
        v: &[Assign<State, GenesisSeal>],
        o: OpId,
        t: AssignmentType,
    ) -> Result<(), IndexWriteError<MemError>> {
        self.call(Call::Write).map_err(IndexWriteError::Connectivity)?;
        self.mem.index_genesis_assignments(c, v, o, t)
    }
    fn index_transition_assignments<State: ExposedState>(
        &mut self,
        c: ContractId,
        v: &[Assign<State, GraphSeal>],
        o: OpId,
        t: AssignmentType,
        w: XWitnessId,
    ) -> Result<(), IndexWriteError<MemError>> {
        self.call(Call::Write).map_err(IndexWriteError::Connectivity)?;
        self.mem.index_transition_assignments(c, v, o, t, w)
    }
}
