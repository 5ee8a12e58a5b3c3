//! C21: stored data is loaded back as it was saved.
//# assumes: the file system keeps what was written

use std::path::PathBuf;
use std::str::FromStr;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

use amplify::confinement::{Confined, U32 as U32MAX};
use amplify::ByteArray;
use nonasync::persistence::{CloneNoPersistence, PersistenceError, PersistenceProvider, Persisting};
use rgbcore::vm::WitnessOrd;
use rgbcore::{AttachId, Identity, Layer1, XChain};
use rgbstd::containers::{ContentId, ContentRef, SigBlob, Supplement, TrustLevel};
use rgbstd::persistence::fs::FsBinStore;
use rgbstd::persistence::{MemIndex, MemStash, MemState, StashWriteProvider, Stock};
use strict_encoding::{StrictDeserialize, StrictSerialize};

use crate::c10::{scene, Scene};
use crate::registry::{Contract, Kani, Property};
use crate::src::Src;
use crate::{fx, post, reach, world};

fn apply(stock: &mut Stock, sc: &Scene, kind: u32) -> bool {
    match kind {
        0 => stock.import_kit(world::kit(0)).is_ok(),
        1 => stock.import_kit(world::kit(1)).is_ok(),
        2 => stock.import_contract(sc.contracts[0].clone(), &sc.chain).is_ok(),
        3 => stock.import_contract(sc.contracts[1].clone(), &sc.chain).is_ok(),
        4 => stock.consume_fascia(sc.fascia.clone(), &sc.chain).is_ok(),
        5 => stock.store_secret_seal(sc.secret).is_ok(),
        6 => stock.accept_transfer(sc.transfer.clone(), &sc.chain).is_ok(),
        _ => {
            let mut later = sc.chain.clone();
            for o in later.ord.values_mut() {
                *o = WitnessOrd::Archived;
            }
            stock.update_witnesses(&later, 0).is_ok()
        }
    }
}

/// Which parts differ. The type libraries are large, so they are compared
/// instead of printed.
fn differ(a: &Stock, b: &Stock) -> [bool; 3] {
    let (x, y) = (a.as_stash_provider(), b.as_stash_provider());
    let types = x.debug_type_system() == y.debug_type_system()
        && x.debug_libs() == y.debug_libs()
        && x.debug_schemata() == y.debug_schemata()
        && x.debug_ifaces() == y.debug_ifaces();
    [
        !(types && small(x) == small(y)),
        format!("{:?}", a.as_state_provider().clone_no_persistence())
            != format!("{:?}", b.as_state_provider().clone_no_persistence()),
        format!("{:?}", a.as_index_provider().clone_no_persistence())
            != format!("{:?}", b.as_index_provider().clone_no_persistence()),
    ]
}

fn small(x: &MemStash) -> String {
    format!(
        "{:?}",
        (
            (x.debug_geneses(), x.debug_suppl(), x.debug_bundles(), x.debug_extensions(), x.debug_witnesses()),
            (x.debug_attachments(), x.debug_secret_seals(), x.debug_identities(), x.debug_sigs()),
        )
    )
}

fn dirty(s: &Stock) -> [bool; 3] {
    let d = [
        s.as_stash_provider().is_dirty(),
        s.as_state_provider().is_dirty(),
        s.as_index_provider().is_dirty(),
    ];
    post!(d == marks(s), "dirty: reported as marked");
    d
}

fn marks(s: &Stock) -> [bool; 3] {
    [
        s.as_stash_provider().persistence().unwrap().dirty,
        s.as_state_provider().persistence().unwrap().dirty,
        s.as_index_provider().persistence().unwrap().dirty,
    ]
}

/// Scratch directory, removed at the end.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Self {
        static N: AtomicUsize = AtomicUsize::new(0);
        let n = N.fetch_add(1, Ordering::SeqCst);
        let p = std::env::temp_dir().join(format!("rgb-contracts-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}

/// Updates, saves and reloads in any order.
fn files<S: Src>(s: &mut S) {
    let sc = scene(2);
    let dir = Scratch::new();
    let fs = FsBinStore::new(dir.0.join("a").join("b")).unwrap();
    let again = FsBinStore::new(dir.0.join("a").join("b")).unwrap();
    post!(fs == again, "store: the same place for the same path");
    post!(fs.stash != fs.state && fs.stash != fs.index && fs.state != fs.index, "store: a file per part");
    post!(Stock::<MemStash, MemState, MemIndex>::load(fs.clone(), false).is_err(), "load: nothing saved is reported");
    let autosave = s.bool();
    let mut stock = Stock::in_memory();
    let early = s.below(3);
    for kind in [0, 2].iter().take(early as usize) {
        apply(&mut stock, &sc, *kind);
    }
    post!(
        stock.as_stash_provider().is_dirty()
            && stock.as_state_provider().is_dirty()
            && stock.as_index_provider().is_dirty(),
        "dirty: what has no place to be saved at is not saved"
    );
    post!(!stock.make_persistent(fs.clone(), autosave).unwrap(), "persistent: was not before");
    check(&stock, &fs);
    for _ in 0..3 {
        let kind = s.below(8);
        let ok = apply(&mut stock, &sc, kind);
        reach!(s, ok && kind == 6, "transfer accepted");
        reach!(s, ok && kind == 4, "fascia consumed");
        reach!(s, !ok, "update refused");
        if !ok || s.bool() {
            stock.store().unwrap();
            post!(dirty(&stock) == [false; 3], "save: nothing is left to write");
        }
        check(&stock, &fs);
        if s.below(3) == 0 {
            let l = Stock::load(fs.clone(), s.bool()).unwrap();
            post!(dirty(&l) == [false; 3], "load: nothing to write");
            reach!(s, ok, "continued after a load");
            stock = l;
        }
    }
    let other = FsBinStore::new(dir.0.join("c")).unwrap();
    post!(stock.make_persistent(other.clone(), autosave).unwrap(), "persistent: was before");
    check(&stock, &other);
}

fn check(stock: &Stock, fs: &FsBinStore) {
    let l = Stock::<MemStash, MemState, MemIndex>::load(fs.clone(), false).unwrap();
    let d = differ(&l, stock);
    post!(!d[0], "load: the stash as it was");
    post!(!d[1], "load: the state as it was");
    post!(!d[2], "load: the index as it was");
}

/// A stash with content of every kind, put there piece by piece.
fn filled<S: Src>(s: &mut S) -> MemStash {
    let mut m = MemStash::in_memory();
    let who = |n: u32| Identity::from_str(&format!("id{n}@example.com")).unwrap();
    for n in 0..s.below(4) {
        let level = [TrustLevel::Malicious, TrustLevel::Unknown, TrustLevel::Untrusted, TrustLevel::Trusted, TrustLevel::Ultimate]
            [s.below(5) as usize];
        m.set_trust(who(n), level).unwrap();
    }
    for n in 0..s.below(3) {
        let sigs = (0..1 + s.below(3)).map(|i| (who(4 + i), SigBlob::from(Confined::try_from(vec![n as u8, i as u8]).unwrap())));
        m.import_sigs(ContentId::Genesis(fx::contract_id(n)), sigs.collect::<Vec<_>>()).unwrap();
    }
    for n in 0..s.below(3) {
        let mut x = Supplement::new(ContentRef::Genesis(fx::contract_id(n)), who(n));
        x.timestamp = s.below(3) as i64;
        m.add_supplement(x).unwrap();
    }
    for n in 0..s.below(3) {
        m.replace_attachment(AttachId::from_byte_array(fx::b32(n)), Confined::try_from(vec![n as u8; 3]).unwrap()).unwrap();
    }
    for n in 0..s.below(3) {
        m.add_secret_seal(XChain::with(if s.bool() { Layer1::Bitcoin } else { Layer1::Liquid }, fx::graph_seal(n % 2, n))).unwrap();
    }
    for n in 0..s.below(3) {
        m.replace_extension(fx::extension(fx::contract_id(n), n as u64, Default::default())).unwrap();
    }
    for n in 0..s.below(3) {
        let t = fx::transition(fx::contract_id(n), n as u64, 1, &[], Default::default());
        let id = rgbcore::Operation::id(&t);
        m.replace_bundle(fx::bundle(fx::method(n % 2), &[(0, id)], vec![t])).unwrap();
    }
    for n in 0..s.below(2) {
        m.replace_genesis(fx::genesis(n, Default::default())).unwrap();
    }
    m
}

/// A stash with content of every kind, saved over another one.
fn contents<S: Src>(s: &mut S) {
    let dir = Scratch::new();
    let fs = FsBinStore::new(dir.0.clone()).unwrap();
    let (a, b) = (filled(s), filled(s));
    let (x, y) = (small(&a), small(&b));
    reach!(s, x.len() > y.len(), "shorter than before");
    reach!(s, x.len() < y.len(), "longer than before");
    for (m, want) in [(&a, &x), (&b, &y)] {
        fs.store(m).unwrap();
        let l: MemStash = fs.load().unwrap();
        post!(small(&l) == *want, "contents: loaded as saved");
    }
}

#[derive(Clone, Debug, Default)]
struct Disk(Arc<Mutex<Inner>>);
#[derive(Debug, Default)]
struct Inner {
    data: [Vec<u8>; 3],
    /// Bit `i`: writes of part `i` fail.
    broken: u32,
    /// The given number of writes succeed first.
    after: u32,
}
#[derive(Debug)]
struct Broken;
impl std::fmt::Display for Broken {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("broken") }
}
impl std::error::Error for Broken {}

impl Disk {
    fn write(&self, part: usize, o: &impl StrictSerialize) -> Result<(), PersistenceError> {
        let mut d = self.0.lock().unwrap();
        if d.broken >> part & 1 == 1 {
            if d.after == 0 {
                return Err(PersistenceError::with(Broken));
            }
            d.after -= 1;
        }
        d.data[part] = o.to_strict_serialized::<U32MAX>().unwrap().release();
        Ok(())
    }
    fn read<T: StrictDeserialize>(&self, part: usize) -> Result<T, PersistenceError> {
        let d = self.0.lock().unwrap();
        let c = amplify::confinement::Confined::<Vec<u8>, 0, U32MAX>::try_from(d.data[part].clone()).unwrap();
        T::from_strict_serialized::<U32MAX>(c).map_err(PersistenceError::with)
    }
}
impl PersistenceProvider<MemStash> for Disk {
    fn load(&self) -> Result<MemStash, PersistenceError> { self.read(0) }
    fn store(&self, o: &MemStash) -> Result<(), PersistenceError> { self.write(0, o) }
}
impl PersistenceProvider<MemState> for Disk {
    fn load(&self) -> Result<MemState, PersistenceError> { self.read(1) }
    fn store(&self, o: &MemState) -> Result<(), PersistenceError> { self.write(1, o) }
}
impl PersistenceProvider<MemIndex> for Disk {
    fn load(&self) -> Result<MemIndex, PersistenceError> { self.read(2) }
    fn store(&self, o: &MemIndex) -> Result<(), PersistenceError> { self.write(2, o) }
}

/// Whatever is not on the disk is marked as such.
fn marked(stock: &Stock, disk: &Disk) -> bool {
    let l = Stock::<MemStash, MemState, MemIndex>::load(disk.clone(), false).unwrap();
    let d = differ(&l, stock);
    (0..3).all(|i| !d[i] || dirty(stock)[i])
}

/// Writes of some parts fail.
fn faulty<S: Src>(s: &mut S) {
    let sc = scene(2);
    let disk = Disk::default();
    let mut stock = Stock::in_memory();
    let early = s.below(4);
    for kind in [0, 2, 5].iter().take(early as usize) {
        apply(&mut stock, &sc, *kind);
    }
    stock.make_persistent(disk.clone(), s.bool()).unwrap();
    for _ in 0..2 {
        {
            let mut d = disk.0.lock().unwrap();
            d.broken = s.below(8);
            d.after = s.below(3);
        }
        let before = stock.clone_no_persistence();
        let ok = apply(&mut stock, &sc, s.below(8));
        reach!(s, ok && differ(&stock, &before) != [false; 3], "written");
        reach!(s, !ok && dirty(&stock) != [false; 3], "not written");
        post!(marked(&stock, &disk), "update: what is not on the disk is marked so");
        if s.bool() {
            let r = stock.store();
            post!(marked(&stock, &disk), "save: what is not on the disk is marked so");
            post!(r.is_err() || dirty(&stock) == [false; 3], "save: reports what is not written");
        }
        if s.bool() {
            disk.0.lock().unwrap().broken = 0;
            post!(stock.store().is_ok(), "save: succeeds once the disk works");
            post!(dirty(&stock) == [false; 3], "save: nothing is left to write");
            post!(marked(&stock, &disk), "save: everything is on the disk");
        }
    }
    disk.0.lock().unwrap().broken = 7;
    disk.0.lock().unwrap().after = 0;
    let r = Stock::in_memory().make_persistent(disk.clone(), s.bool());
    post!(r.is_err(), "persistent: a failed write is reported");
}

pub const PROPERTY: Property = Property {
    id: "C21",
    module: "c21",
    findings: &[],
    contracts: &[
        Contract {
            name: "files",
            f: files,
            fns: &[
                "FsBinStore::new", "FsBinStore::load", "FsBinStore::store", "Stock::load", "Stock::store",
                "Stock::make_persistent", "MemStash strict encoding", "MemState strict encoding",
                "MemIndex strict encoding", "Persisting for MemStash", "Persisting for MemState",
                "Persisting for MemIndex", "StoreTransaction for MemStash", "StoreTransaction for MemState",
                "StoreTransaction for MemIndex",
            ],
            kani: Kani::No,
            native: "histories of up to 5 updates of 8 kinds with saves and loads in between, on files in a scratch directory",
            reach: &["transfer accepted", "fascia consumed", "update refused", "continued after a load"],
        },
        Contract {
            name: "contents",
            f: contents,
            fns: &["FsBinStore::load", "FsBinStore::store", "MemStash strict encoding"],
            kani: Kani::No,
            native: "stashes with up to 3 pieces of each of 8 kinds, one saved over another",
            reach: &["shorter than before", "longer than before"],
        },
        Contract {
            name: "faulty",
            f: faulty,
            fns: &[
                "Stock::store", "Stock::make_persistent", "StoreTransaction for MemStash",
                "StoreTransaction for MemState", "StoreTransaction for MemIndex", "Stock::store_transaction",
            ],
            kani: Kani::No,
            native: "histories of up to 5 updates with failing writes of any parts, after up to 2 successful ones, with and without autosave",
            reach: &["written", "not written"],
        },
    ],
};
