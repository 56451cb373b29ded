//! Coverage-guided search: libFuzzer drives the choices of one check, guided by the coverage of
//! the library alone (only it is instrumented). A failing input is left as an artifact, which
//! `fitscheck --artifact` turns into a shrunk replay file.
#![no_main]
#![allow(dead_code)]

mod alloc;
mod cards;
mod engine;
mod model;
mod props;
mod readers;
mod tiles;
mod util;

use engine::*;
use std::sync::OnceLock;

type Checks = Vec<Box<dyn Check>>;
struct Shared(Checks);
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}

static CHECKS: OnceLock<Shared> = OnceLock::new();

libfuzzer_sys::fuzz_target!(|data: &[u8]| {
    let checks = CHECKS.get_or_init(|| {
        // libFuzzer's hook aborts on every panic, ours lets the check see them
        let _ = std::panic::take_hook();
        install_panic_hook();
        let property = std::env::var("FITSFUZZ_PROPERTY").unwrap();
        let name = std::env::var("FITSFUZZ_CHECK").unwrap();
        let mut checks = props::checks(&property);
        checks.retain(|c| c.name() == name);
        Shared(checks)
    });
    let choices = choices_of_bytes(data);
    if let Err((message, _)) = checks.0[0].run_choices(&choices, true, None) {
        eprintln!("{message}");
        std::process::abort();
    }
});
