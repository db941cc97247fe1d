//! The enumerations behind each property.

use crate::{diff::*, explore::*};
use alloy_primitives::U256;
use revm_primitives::hardfork::SpecId;

pub mod bytes;
pub mod config;
pub mod flow;
pub mod forks;
pub mod gas;
pub mod history;
pub mod hostops;
pub mod joins;
pub mod mem;
pub mod pure;
pub mod stack;
pub mod susp;
pub mod tok;

pub const L: SpecId = SpecId::OSAKA;

pub fn u(v: u64) -> U256 {
    U256::from(v)
}
pub fn pow2(n: usize) -> U256 {
    U256::ONE << n
}
pub fn m1() -> U256 {
    U256::MAX
}

pub const PI: [Cfg; 2] = [Cfg::PROD, Cfg::INSPECT];

/// Static text for the evidence file.
pub struct Info {
    pub bounds: String,
    pub meaning: &'static str,
    pub assumptions: Vec<&'static str>,
}

pub const COMMON: [&str; 3] = [
    "The reference is the revm interpreter crate the repository itself depends on (pinned by its lock file).",
    "The backend-independent IR that revmc emits is executed by an instrumented Backend implementation (irvm) instead of LLVM, which is not installed here; LLVM's own lowering is outside the check.",
    "Bounded: see coverage.bounds; nothing is claimed beyond the enumerated programs, operands and environments.",
];

pub fn info(prop: &str) -> Info {
    let all: serde_json::Value = serde_json::from_str(include_str!("../bounds.json")).unwrap();
    let bounds = all[prop].as_str().unwrap_or("").to_string();
    Info {
        bounds,
        meaning: "states = (program, compiler configuration, environment) executions judged; transitions = basic-block edges and builtin calls executed by the real generated IR; every execution is validated against the reference interpreter",
        assumptions: COMMON.to_vec(),
    }
}

pub fn aspects(prop: &str, ctx: &mut Ctx) {
    let _ = prop;
    ctx.asp = Aspects { gas: true, effects: true };
}

pub fn run(prop: &str, ctx: &mut Ctx) {
    aspects(prop, ctx);
    match prop {
        "P01" => pure::run(ctx),
        "P02" => gas::run(ctx),
        "P03" => flow::run(ctx),
        "P04" => mem::run(ctx),
        "P05" => hostops::run(ctx),
        "P06" => config::run(ctx),
        "P07" => stack::run(ctx),
        "P08" => susp::run(ctx),
        "P09" => forks::run(ctx),
        "P10" => bytes::run(ctx),
        "P13" => history::run(ctx),
        _ => panic!("unknown property {prop}"),
    }
}

pub fn replay(_prop: &str, ctx: &mut Ctx, text: &str) {
    match parse_case(text).get("kind").map(|s| s.as_str()) {
        Some("history") => history::replay(ctx, text),
        _ => ctx.replay(text),
    }
}
