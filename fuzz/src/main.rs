//! libFuzzer over the sections of a property: see `elv::fuzz`.
#![no_main]

// libFuzzer and the glue of its crate
use libfuzzer_sys as _;

#[no_mangle]
pub fn rust_fuzzer_test_input(input: &[u8]) -> i32 {
    elv::fuzz::one_input(input)
}
