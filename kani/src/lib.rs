//! Contracts on the real number and colour code, discharged by Kani (CBMC, bit-precise, no loops: no bound).
#![cfg(kani)]
mod c16;
mod c21;

/// Reached only where a call returned that the contract wants rejected: not a panic, so a
/// `should_panic` harness that reaches it fails.
#[allow(invalid_null_arguments)]
fn returned() {
    unsafe { std::ptr::read_volatile(std::ptr::null::<u8>()) };
}
