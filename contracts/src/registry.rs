use crate::native::Native;

/// How the contract is discharged deductively.
pub enum Kani {
    /// No harness: outside the verifier's reach, bounded native stand-in only.
    No,
    /// Harness without input bounds: a pass is a proof for the whole domain.
    Full,
    /// As `Full`, split in `n` harnesses over the first choice (`name__0`..).
    Split(u32),
    /// Harness with a stated input bound (collection length, string length).
    Bounded(&'static str),
    /// As `Bounded`, split over the first choice.
    SplitBounded(u32, &'static str),
}

pub struct Contract {
    pub name: &'static str,
    pub f: fn(&mut Native),
    /// Functions of the repository this contract speaks about.
    pub fns: &'static [&'static str],
    pub kani: Kani,
    /// Domain enumerated or sampled by the native run.
    pub native: &'static str,
    /// The reachability points which must be hit in the native run.
    pub reach: &'static [&'static str],
}

pub struct Property {
    pub id: &'static str,
    pub module: &'static str,
    pub contracts: &'static [Contract],
    /// Contracts which are expected to fail: recorded findings.
    pub findings: &'static [Contract],
}
