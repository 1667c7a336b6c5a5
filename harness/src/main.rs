mod alloc;
mod common;
mod eng;
mod gen;
mod hooks;
mod model;
mod net;
#[cfg(feature = "net")]
mod p_cli;
#[cfg(feature = "net")]
mod p_client;
mod p_codec;
mod p_conc;
mod p_engine;
#[cfg(feature = "net")]
mod p_ext;
mod p_misc;
#[cfg(feature = "net")]
mod p_mem;
mod p_net;
#[cfg(feature = "net")]
mod p_timer;
mod p_san;
mod p_sub;
mod rng;
mod wire;

use common::*;
use std::{path::PathBuf, time::{Duration, Instant}};

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn main() {
    let mut a = std::env::args().skip(1);
    let prop = a.next().expect("property");
    let mut c = Ctx {
        prop: prop.clone(),
        thorough: false,
        seed: 1,
        out: PathBuf::from("."),
        budget: Duration::from_secs(20),
        server: PathBuf::new(),
        cli: PathBuf::new(),
        shim: PathBuf::new(),
        start: Instant::now(),
    };
    while let Some(k) = a.next() {
        let v = a.next().expect("value");
        match k.as_str() {
            "--tier" => c.thorough = v == "thorough",
            "--seed" => c.seed = v.parse().expect("seed"),
            "--out" => c.out = v.into(),
            "--budget" => c.budget = Duration::from_secs_f64(v.parse().expect("budget")),
            "--server" => c.server = v.into(),
            "--shim" => c.shim = v.into(),
            "--cli" => c.cli = v.into(),
            _ => panic!("unknown option {k}"),
        }
    }
    init(c);
    install_panic_hook();
    // Miri sees by itself that every thread waits for another, unless one sleeps.
    if !cfg!(miri) {
        start_watchdog();
    }
    match prop.as_str() {
        "P01" => p_engine::p01(),
        "P02" => p_engine::p02(),
        "P03" => p_engine::p03(),
        "P04" => p_engine::p04(),
        "P05" => p_engine::p05(),
        "P06" => p_engine::p06(),
        "P07" => p_engine::p07(),
        "P08" => p_conc::p08(),
        "P09" => p_conc::p09(),
        "P10" => p_conc::p10(),
        "P11" => p_codec::p11(),
        "P12" => p_codec::p12(),
        "P13" => p_codec::p13(),
        "P14" => p_codec::p14(),
        "P15" => p_net::p15(),
        "P16" => p_net::p16(),
        "P17" => p_net::p17(),
        #[cfg(feature = "net")]
        "P18" => p_client::p18(),
        #[cfg(feature = "net")]
        "P19" => p_client::p19(),
        #[cfg(feature = "net")]
        "P20" => p_client::p20(),
        "P21" => p_misc::p21(),
        "P22" => p_misc::p22(),
        "P23" => p_misc::p23(),
        #[cfg(feature = "net")]
        "P24" => p_timer::p24(),
        #[cfg(feature = "net")]
        "P25" => p_cli::p25(),
        #[cfg(feature = "net")]
        "P27" => p_ext::p27(),
        #[cfg(feature = "net")]
        "P28" => p_ext::p28(),
        #[cfg(feature = "net")]
        "P29" => p_ext::p29(),
        #[cfg(feature = "net")]
        "P30" => p_ext::p30(),
        #[cfg(feature = "net")]
        "P31" => p_mem::p31(),
        "P32" => p_sub::p32(),
        "P26heap" => p_san::heap(),
        "P26tsan" => p_san::sanitized("tsan"),
        "P26asan" => p_san::sanitized("asan"),
        "P26miri" => p_san::sanitized("miri"),
        _ => panic!("unknown property {prop}"),
    }
    write_result();
    if cfg!(miri) {
        // Miri looks for leaks when the main thread ends.
        return;
    }
    // Threads of the harness may still run: leave without waiting for them.
    unsafe { libc::_exit(0) }
}
