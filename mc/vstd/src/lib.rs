//! The standard library with its threads, locks, atomics, channels and sleeping put under a
//! controlled scheduler (`sched`). A thread that is not part of a controlled execution gets the
//! ordinary behaviour.

pub use ::std::*;

pub mod sched;

pub mod sync;
pub mod thread;

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        if !crate::sched::op_yield() {
            ::std::hint::spin_loop()
        }
    }
}
