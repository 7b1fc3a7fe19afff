//! replay HARNESS FILE: run one harness natively on recorded values (FILE: one hex byte string per
//! line). Exit 10: an assertion fails (the counterexample is real). 0: it passes and reaches its end.
//! 3: the values are not feasible.
use crevice_harness::{nd, props, WITNESS};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 || args[1] == "--list" {
        for (n, _) in props::all() {
            println!("{n}");
        }
        return;
    }
    let (_, f) = props::all()
        .into_iter()
        .find(|(n, _)| *n == args[1])
        .unwrap_or_else(|| panic!("no harness {}", args[1]));
    let text = std::fs::read_to_string(&args[2]).expect("values file");
    let vals = text.lines().map(str::trim).filter(|l| !l.is_empty() && !l.starts_with('#')).map(|l| {
        (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>()
    });
    nd::VALUES.with(|q| q.borrow_mut().extend(vals));
    match std::panic::catch_unwind(f) {
        Ok(()) => {
            let w = WITNESS.with(|w| w.get());
            println!("replay: no assertion fails (end reached: {w})");
            std::process::exit(if w { 0 } else { 4 });
        }
        Err(p) => {
            if let Some(i) = p.downcast_ref::<nd::Infeasible>() {
                println!("replay: {}", i.0);
                std::process::exit(3);
            }
            println!("replay: the real code violates the assertion");
            std::process::exit(10);
        }
    }
}
