
use twchain::{engine::*, *};

fn dispatch(id: &str, replay: Option<serde_json::Value>, seed: u64, tier: Tier) -> i32 {
    fn go<P: Prop>(p: P, replay: Option<serde_json::Value>, seed: u64, tier: Tier) -> i32 {
        match replay {
            Some(c) => replay_prop(&p, c),
            None => run_prop(&p, seed, tier),
        }
    }
    match id {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C19" | "C20" => {
            let id = ["C01", "C02", "C03", "C04", "C05", "C19", "C20"].into_iter().find(|x| *x == id).unwrap();
            go(p_lab::LabProp { id }, replay, seed, tier)
        }
        "C09" => go(p_close::C09, replay, seed, tier),
        "C10" => go(p_sync::C10, replay, seed, tier),
        "C11" => go(p_sync::C11, replay, seed, tier),
        "C12" => go(p_source::C12, replay, seed, tier),
        "C06" => go(p_hostile::C06, replay, seed, tier),
        "C18" => go(p_hostile::C18, replay, seed, tier),
        "C14" => go(p_pointer::C14, replay, seed, tier),
        "C07" => go(p_create::C07, replay, seed, tier),
        "C08" => go(p_create::C08, replay, seed, tier),
        "C23" => go(p_cli::C23, replay, seed, tier),
        "C24" => go(p_cli::C24, replay, seed, tier),
        "C25" => go(p_cli::C25, replay, seed, tier),
        "C27" => go(p_jsflow::C27, replay, seed, tier),
        "C28" => go(p_called::C28, replay, seed, tier),
        "C21" => go(p_create::C21, replay, seed, tier),
        _ => {
            eprintln!("unknown property {id}");
            2
        }
    }
}

fn main() {
    std::process::exit(cli(dispatch));
}
