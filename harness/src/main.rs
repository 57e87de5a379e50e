#![allow(unused_must_use)]
mod alloc;
#[macro_use]
mod cx;
mod e_arena;
mod e_chain;
mod e_chaos;
mod e_cost;
mod e_iter;
mod e_layout;
mod e_mem;
mod e_ord;
mod e_ordbal;
mod e_panics;
mod e_ptrs;
mod e_render;
mod e_scale;
#[cfg(feature = "serde")]
mod e_serde;
mod e_surject;
mod e_text;
mod model;
mod ptrs;
mod rng;
mod run;
mod tok;

fn main() {
    std::process::exit(run::main());
}
