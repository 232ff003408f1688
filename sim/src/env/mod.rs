//! The simulated environment: memory, output devices, streamed values, scheduler.
pub mod alloc;
pub mod context;
pub mod sched;
pub mod sink;
#[cfg(feature = "full")]
pub mod transport;
pub mod value;

/// Payload of panics the simulator injects itself.
pub struct InjectedPanic;

pub fn injected_panic() -> ! {
    // No panic hook, no message: this is an environment fault, not a bug.
    std::panic::resume_unwind(Box::new(InjectedPanic))
}
