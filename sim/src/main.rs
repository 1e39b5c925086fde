//! Deterministic simulation of renplex. See DESIGN.md.
#![allow(static_mut_refs, invalid_runtime_symbol_definitions)]

mod choice;
mod elem;
mod io;
mod json;
mod model;
mod net;
mod orch;
mod rt;
mod s_data;
mod s_export;
mod s_layer;
mod s_load;
mod s_matrix;
mod s_net;
mod s_num;
mod s_ops;
mod s_pipe;
mod s_rand;
mod step;
mod sys;

use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

#[global_allocator]
static A: io::Alloc = io::Alloc;

pub static DEBUG: AtomicBool = AtomicBool::new(false);

pub struct Prop {
    pub id: &'static str,
    pub run: fn(),
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assume: &'static [&'static str],
}

fn props() -> Vec<Prop> {
    vec![
        s_load::C01,
        s_load::C02,
        s_export::C03,
        s_export::C04,
        s_net::C05,
        s_net::C06,
        s_net::C07,
        s_pipe::C08,
        s_net::C09,
        s_matrix::C10,
        s_rand::C11,
        s_rand::C12,
        s_net::C13,
        s_num::C14,
        s_num::C15,
        s_ops::C16,
        s_layer::C17,
        s_data::C18,
        s_num::C19,
    ]
}

fn main() {
    orch::fix_addresses();
    DEBUG.store(std::env::var_os("SIM_DEBUG").is_some(), SeqCst);
    step::learn();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1u64);
    orch::set_tier(&std::env::var("VERIF_TIER").unwrap_or_default());
    let a: Vec<String> = std::env::args().skip(1).collect();
    let all = props();
    let find = |id: &String| {
        all.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(3)
        })
    };
    let num = |i: usize, d: u64| a.get(i).and_then(|v| v.parse().ok()).unwrap_or(d);
    let code = match a.iter().map(|x| x.as_str()).collect::<Vec<_>>().as_slice() {
        ["check", _] => orch::check(find(&a[1]), seed),
        ["replay", p] => orch::replay(&all, p),
        ["one", _, ..] => orch::one(find(&a[1]), num(2, seed), num(3, 0)),
        ["digest", _, ..] => orch::digest(find(&a[1]), seed, num(2, 200)),
        _ => {
            eprintln!("usage: sim check P | replay FILE | one P SEED RUN | digest P N");
            3
        }
    };
    std::process::exit(code);
}
