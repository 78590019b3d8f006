//! Bounded stand-ins and counterexample search: independent reference
//! implementations run side by side with the real code of /repo.
//! Compiled as a module of a copy of /repo/src/bin.rs (so that the private
//! functions of the binary are reachable) against the library crate in /repo.
#![allow(dead_code, unused_variables, clippy::all)]
mod util;
mod lex;
mod parse;
mod p_lex;
mod p_parse;
mod p_env;
mod p_arith;
mod p_lib;
mod p_err;
mod p_show;
mod p_report;
mod p_term;
mod p_widget;
mod interp;
mod p_eval;
mod p_fs;
mod p_fsread;
mod p_math;
mod p_str;
mod p_curry;
mod p_core;
mod p_data;
mod p_rand;
mod p_sys;
mod p_prog;
mod p_fmt;
mod p_out;
mod p_shell;
mod p_time;

pub fn main() {
    util::main();
}
