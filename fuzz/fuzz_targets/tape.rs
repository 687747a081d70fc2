#![no_main]
//! Coverage-guided search over the choices of a family: the input bytes are the tape of a case
//! (VH_FUZZ=<property>/<family>). A violation is left in VH_FUZZ_OUT as a tape, for `vh` to shrink.
libfuzzer_sys::fuzz_target!(|data: &[u8]| vh::fuzz::one(data));
