// Entry of the harness; included in the crate root of posy as `mod posy_verif`.
pub mod core;
pub mod sys;
pub mod sched;
pub mod crash;
pub mod origin;
pub mod archive;
pub mod p_store;
pub mod p_http;
pub mod p_cache;
pub mod p_vocab;
pub mod p_req;
pub mod p_tags;
pub mod p_names;
pub mod p_index;
pub mod p_lock;
pub mod p_malformed;
pub mod p_tree;
pub mod p_entry;
pub mod p_resolve;
pub mod p_build;
pub mod p_env;
pub mod world;

use self::core::{Ctx, Tier};

pub fn run() -> bool {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("dump-p11") {
        p_vocab::dump();
        return true;
    }
    if args.get(1).map(|s| s.as_str()) != Some("check") {
        eprintln!("usage: posy check <property> [--only KEY]");
        std::process::exit(2);
    }
    let prop = args[2].clone();
    let only = args.iter().position(|a| a == "--only").map(|i| args[i + 1].clone());
    let scratch = std::path::PathBuf::from(std::env::var("VERIF_SCRATCH").expect("VERIF_SCRATCH"));
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    self::core::install_panic_hook();
    let ctx = Ctx {
        prop: prop.clone(),
        tier,
        seed,
        scratch,
        verif: std::path::PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into())),
        only,
        jobs: std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8),
        rep: Default::default(),
        start: std::time::Instant::now(),
        machinery_error: None,
        hang_secs: 120,
        unprivileged: false,
    };
    let code = match prop.as_str() {
        "P01" => p_store::p01(ctx),
        "P02" => p_store::p02(ctx),
        "P03" => p_store::p03(ctx),
        "P04" => p_store::p04(ctx),
        "P05" => p_http::p05(ctx),
        "P06" => p_cache::p06(ctx),
        "P07" => p_http::p07(ctx),
        "P08" => p_http::p08(ctx),
        "P11" => p_vocab::p11(ctx),
        "P12" => p_req::p12(ctx),
        "P16" => p_tags::p16(ctx),
        "P17" => p_names::p17(ctx),
        "P18" => p_index::p18(ctx),
        "P23" => p_lock::p23(ctx),
        "P24" => p_malformed::p24(ctx),
        "P09" => p_tree::p09(ctx),
        "P10" => p_tree::p10(ctx),
        "P20" => p_entry::p20(ctx),
        "P13" => p_resolve::p13(ctx),
        "P14" => p_resolve::p14(ctx),
        "P15" => p_env::p15(ctx),
        "P21" => p_build::p21(ctx),
        "P22" => p_build::p22(ctx),
        "P19" => p_names::p19(ctx),
        _ => {
            eprintln!("no check {prop}");
            2
        }
    };
    std::process::exit(code);
}
