//! Toy seal and state types for contracts on code generic over both.
//!
//! The code under contract can use the values only through the traits below
//! (equality and concealment), so a proof for these types carries over to every
//! instance whose concealment is injective.

use amplify::Wrapper;
use bp::seals::txout::{CloseMethod, TxoSeal};
use bp::seals::SecretSeal;
use bp::{Outpoint, Txid, Vout};
use commit_verify::Conceal;
use rgbcore::{
    Assign, ConcealedState, ConfidentialState, ExposedSeal, ExposedState, RevealedState, StateType,
    XChain,
};
use strict_encoding::{StrictDecode, StrictDumb, StrictEncode, StrictType};

use crate::src::Src;

pub fn b32(x: u8) -> [u8; 32] {
    let mut a = [0u8; 32];
    a[0] = x;
    a
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = "Toy")]
pub struct Toy(pub u8);

impl Conceal for Toy {
    type Concealed = SecretSeal;
    fn conceal(&self) -> SecretSeal { SecretSeal::from_inner(b32(self.0).into()) }
}
impl TxoSeal for Toy {
    fn method(&self) -> CloseMethod { CloseMethod::OpretFirst }
    fn txid(&self) -> Option<Txid> { None }
    fn vout(&self) -> Vout { Vout::from_u32(0) }
    fn outpoint(&self) -> Option<Outpoint> { None }
    fn txid_or(&self, d: Txid) -> Txid { d }
    fn outpoint_or(&self, d: Txid) -> Outpoint { Outpoint::new(d, 0u32) }
}
impl ExposedSeal for Toy {}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = "Toy")]
pub struct St(pub u8);
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = "Toy")]
pub struct CSt(pub u8);
impl Conceal for St {
    type Concealed = CSt;
    fn conceal(&self) -> CSt { CSt(self.0) }
}
impl ConfidentialState for CSt {
    fn state_type(&self) -> StateType { StateType::Void }
    fn state_commitment(&self) -> ConcealedState { ConcealedState::Void }
}
impl ExposedState for St {
    type Confidential = CSt;
    fn state_type(&self) -> StateType { StateType::Void }
    fn state_data(&self) -> RevealedState { RevealedState::Void }
}

pub fn chain<T>(liquid: bool, t: T) -> XChain<T> {
    if liquid {
        XChain::Liquid(t)
    } else {
        XChain::Bitcoin(t)
    }
}

/// How much of an assignment a view shows: 0 everything, 1 state only, 2 seal
/// only, 3 nothing.
pub fn view<S: ExposedState, L: ExposedSeal>(kind: u32, seal: XChain<L>, state: S) -> Assign<S, L> {
    let lock = Default::default();
    match kind {
        0 => Assign::Revealed { seal, state, lock },
        1 => Assign::ConfidentialSeal { seal: seal.conceal(), state, lock },
        2 => Assign::ConfidentialState { seal, state: state.conceal(), lock },
        _ => Assign::Confidential { seal: seal.conceal(), state: state.conceal(), lock },
    }
}

pub fn shows_seal(kind: u32) -> bool { kind == 0 || kind == 2 }
pub fn shows_state(kind: u32) -> bool { kind == 0 || kind == 1 }

/// The kind of view `a` is.
pub fn kind<S: ExposedState, L: ExposedSeal>(a: &Assign<S, L>) -> u32 {
    match a {
        Assign::Revealed { .. } => 0,
        Assign::ConfidentialSeal { .. } => 1,
        Assign::ConfidentialState { .. } => 2,
        Assign::Confidential { .. } => 3,
    }
}

/// `a` is exactly the view of kind `k` on the given seal and state.
pub fn is_view<S: ExposedState + PartialEq, L: ExposedSeal>(
    a: &Assign<S, L>,
    k: u32,
    seal: XChain<L>,
    state: &S,
) -> bool {
    match a {
        Assign::Revealed { seal: x, state: y, .. } => k == 0 && *x == seal && y == state,
        Assign::ConfidentialSeal { seal: x, state: y, .. } => {
            k == 1 && *x == seal.conceal() && y == state
        }
        Assign::ConfidentialState { seal: x, state: y, .. } => {
            k == 2 && *x == seal && *y == state.conceal()
        }
        Assign::Confidential { seal: x, state: y, .. } => {
            k == 3 && *x == seal.conceal() && *y == state.conceal()
        }
    }
}

/// The most revealed combination of two views.
pub fn join(k1: u32, k2: u32) -> u32 {
    match (shows_seal(k1) || shows_seal(k2), shows_state(k1) || shows_state(k2)) {
        (true, true) => 0,
        (false, true) => 1,
        (true, false) => 2,
        (false, false) => 3,
    }
}

pub fn draw_toy<S: Src>(s: &mut S) -> (XChain<Toy>, St) {
    let l = s.below(2) == 1;
    (chain(l, Toy(s.u8())), St(s.u8()))
}
