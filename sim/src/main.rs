//! Deterministic simulation of uwuhi. See /verif/DESIGN.md.

#![allow(clippy::too_many_arguments)]

#[macro_use]
mod kernel;
mod check;
mod codec;
mod coro;
mod gen;
mod interpose;
mod mem;
mod nodes;
mod o_adv;
mod o_cli;
mod o_tap;
mod peers;
mod report;
mod run;
mod scen;
mod tape;
mod wire;

fn main() {
    run::init();
    std::process::exit(check::main());
}
