//! Calls the sudo_plugin library the way sudo's C front end does, from a script on a file, and
//! records what happened.  Nothing here judges: the oracles are in lib/checks_lib.py.
#![allow(static_mut_refs, non_camel_case_types, dead_code, clippy::all)]

mod abi;
mod host;
mod plugs;
mod views;

use host::*;
use std::io::BufRead;

fn main() {
    let mut args = std::env::args().skip(1);
    let what = args.next().expect("what");
    match what.as_str() {
        "abi" => abi::dump(),
        "versions" => abi::versions(),
        "run" => {
            // a panic is an event, not a message
            std::panic::set_hook(Box::new(|_| ev("{\"e\":\"panic\"}".into())));
            let f = args.next().expect("script");
            let rd = std::io::BufReader::new(std::fs::File::open(f).expect("open script"));
            let mut case: Vec<String> = vec![];
            for l in rd.lines() {
                let l = l.expect("line");
                if l == "end" {
                    run(&case);
                    case.clear();
                } else {
                    case.push(l);
                }
            }
        }
        _ => panic!("unknown {}", what),
    }
}
