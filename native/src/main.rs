//! Generated-input checks of token-wrap's library.
mod p_addr;
mod p_builders;
mod p_codec;
mod p_convert;
mod p_errors;
mod p_js;

use twchain::engine::*;

fn go<P: Prop>(p: P, replay: Option<serde_json::Value>, seed: u64, tier: Tier) -> i32 {
    match replay {
        Some(c) => replay_prop(&p, c),
        None => run_prop(&p, seed, tier),
    }
}
fn main() {
    let code = cli(|id, replay, seed, tier| match id {
        "C13" => go(p_convert::C13, replay, seed, tier),
        "C15" => go(p_codec::C15, replay, seed, tier),
        "C16" => go(p_addr::C16, replay, seed, tier),
        "C17" => go(p_builders::C17, replay, seed, tier),
        "C22" => go(p_errors::C22, replay, seed, tier),
        "C26" => go(p_js::C26, replay, seed, tier),
        _ => {
            eprintln!("unknown property {id}");
            2
        }
    });
    std::process::exit(code);
}
