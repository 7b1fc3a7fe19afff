//! Source of nondeterminism: symbolic under Kani, a recorded counterexample natively.

#[cfg(kani)]
mod imp {
    pub fn u8() -> u8 {
        kani::any()
    }
    pub fn u32() -> u32 {
        kani::any()
    }
    pub fn u64() -> u64 {
        kani::any()
    }
    pub fn usize() -> usize {
        kani::any()
    }
    pub fn assume(c: bool) {
        kani::assume(c)
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local! {
        pub static VALUES: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new());
    }
    /// Marker panic payload: the recorded values do not satisfy an assumption.
    pub struct Infeasible(pub &'static str);

    fn next<const N: usize>() -> [u8; N] {
        let v = VALUES.with(|q| q.borrow_mut().pop_front());
        let mut out = [0u8; N];
        match v {
            Some(b) if b.len() == N => out.copy_from_slice(&b),
            // Values the solver left unconstrained are not always recorded.
            None => {}
            Some(_) => std::panic::panic_any(Infeasible("recorded value has another width")),
        }
        out
    }
    pub fn u8() -> u8 {
        u8::from_le_bytes(next())
    }
    pub fn u32() -> u32 {
        u32::from_le_bytes(next())
    }
    pub fn u64() -> u64 {
        u64::from_le_bytes(next())
    }
    pub fn usize() -> usize {
        usize::from_le_bytes(next())
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Infeasible("assumption not met by recorded values"))
        }
    }
}

pub use imp::*;

/// An arbitrary value below `n`.
pub fn below(n: usize) -> usize {
    let v = usize();
    assume(v < n);
    v
}

/// Reachability witness: the runner requires every one of these to be satisfiable.
#[macro_export]
macro_rules! reached {
    () => {
        #[cfg(kani)]
        kani::cover!(true, "harness end reachable");
        #[cfg(not(kani))]
        $crate::witness();
    };
}
