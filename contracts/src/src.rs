//! Source of the universally quantified inputs of a contract.
//!
//! A contract is an ordinary generic function `fn c<S: Src>(s: &mut S)`: it draws
//! its inputs from `s`, calls the real code and asserts the postcondition.  With
//! the Kani source every draw is an unconstrained symbolic value, so the solver
//! decides the contract for the whole domain.  With the native source draws come
//! from a depth-first enumeration, a seeded generator or a recorded list (replay).

pub trait Src {
    fn u8(&mut self) -> u8;
    fn u16(&mut self) -> u16;
    fn u32(&mut self) -> u32;
    fn u64(&mut self) -> u64;
    /// Any value in `0..n`.
    fn below(&mut self, n: u32) -> u32;
    fn bool(&mut self) -> bool { self.below(2) == 1 }
    /// Restricts attention to inputs satisfying a precondition.
    fn assume(&mut self, cond: bool);
    /// Reachability witness (vacuity guard).
    fn hit(&mut self, cond: bool, name: &'static str);
}

/// Symbolic source. The first `below` draws may be fixed to constants: a harness
/// family which fixes each value of a finite choice once covers the same domain
/// as a single harness with the choice left symbolic.
#[cfg(kani)]
pub struct KaniSrc {
    pub fixed: &'static [u32],
    pub pos: usize,
}

#[cfg(kani)]
impl Src for KaniSrc {
    fn u8(&mut self) -> u8 { kani::any() }
    fn u16(&mut self) -> u16 { kani::any() }
    fn u32(&mut self) -> u32 { kani::any() }
    fn u64(&mut self) -> u64 { kani::any() }
    fn below(&mut self, n: u32) -> u32 {
        if self.pos < self.fixed.len() {
            let x = self.fixed[self.pos];
            self.pos += 1;
            return x;
        }
        let x: u32 = kani::any();
        kani::assume(x < n);
        x
    }
    fn assume(&mut self, cond: bool) { kani::assume(cond) }
    fn hit(&mut self, _cond: bool, _name: &'static str) {}
}

/// `reach!(s, cond, "name")`: the condition must be satisfiable at this point.
#[macro_export]
macro_rules! reach {
    ($s:expr, $c:expr, $n:literal) => {{
        #[cfg(kani)]
        kani::cover!($c, $n);
        #[cfg(not(kani))]
        $s.hit($c, $n);
    }};
}

/// `post!(cond, "obligation")`: a named postcondition.
#[macro_export]
macro_rules! post {
    ($c:expr, $n:literal) => {{
        assert!($c, $n);
    }};
}

/// `proof!([attrs] harness = contract [fixed choices])`: Kani proof harness.
#[macro_export]
macro_rules! proof {
    ([$($a:meta),*] $h:ident = $c:path [$($x:expr),*]) => {
        #[cfg(kani)]
        #[kani::proof]
        $(#[$a])*
        fn $h() {
            let mut s = $crate::src::KaniSrc { fixed: &[$($x),*], pos: 0 };
            $c(&mut s);
        }
    };
}

/// One harness per value of the first choice (`name__0`, `name__1`, ...).
#[macro_export]
macro_rules! proof_split {
    ($attrs:tt $c:ident : $($x:literal)*) => {
        paste::paste! { $( $crate::proof!($attrs [<$c __ $x>] = super::$c [$x]); )* }
    };
}

#[macro_export]
macro_rules! proof_split19 {
    ($attrs:tt $c:ident) => {
        $crate::proof_split!($attrs $c : 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18);
    };
}
