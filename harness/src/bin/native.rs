//! Runs contracts natively on concrete inputs.
//!
//! native run SEED ITERATIONS PREFIX...    boundary-biased inputs
//! native replay NAME DRAW...              one recorded input
//!
//! Output: one line per harness, `NAME ok EVALUATED DISCARDED` or
//! `NAME FAIL draws=... message`.

#[cfg(kani)]
fn main() {}

#[cfg(not(kani))]
fn main() {
    use ethnum_contracts::{nd, registry};
    use std::panic::{catch_unwind, AssertUnwindSafe};
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));

    enum R {
        Ok,
        Discard,
        Fail(String),
    }
    fn one(f: fn()) -> R {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(()) => R::Ok,
            Err(e) if e.is::<nd::Discard>() => R::Discard,
            Err(e) => R::Fail(
                e.downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default(),
            ),
        }
    }
    fn show(v: &[u128]) -> String {
        v.iter().map(|x| format!("{x:#x}")).collect::<Vec<_>>().join(",")
    }

    let reg = registry();
    if args[1] == "list" {
        for (n, _) in reg {
            println!("{n}");
        }
        return;
    }
    if args[1] == "replay" {
        let f = reg.iter().find(|r| r.0 == args[2]).expect("no such harness").1;
        let v: Vec<u128> = args[3..]
            .iter()
            .flat_map(|s| s.split(',').map(str::to_string).collect::<Vec<_>>())
            .filter(|s| !s.is_empty())
            .map(|s| match s.strip_prefix("0x") {
                Some(h) => u128::from_str_radix(h, 16).unwrap(),
                None => s.parse().unwrap(),
            })
            .collect();
        nd::replay(v);
        match one(f) {
            R::Ok => println!("{} ok 1 0", args[2]),
            R::Discard => println!("{} ok 0 1", args[2]),
            R::Fail(m) => {
                println!("{} FAIL draws={} {}", args[2], show(&nd::draws()), m.replace('\n', " "));
                std::process::exit(1);
            }
        }
        return;
    }
    let seed: u64 = args[2].parse().unwrap();
    let iters: u64 = args[3].parse().unwrap();
    let secs: f64 = args[4].parse().unwrap();
    let mut bad = false;
    for (name, f) in &reg {
        if !args[5..].iter().any(|p| name.starts_with(p.as_str())) {
            continue;
        }
        let t = std::time::Instant::now();
        let (mut ok, mut dis) = (0u64, 0u64);
        let mut distinct = std::collections::HashSet::new();
        let mut fail = None;
        for i in 0..iters {
            if i % 64 == 63 && t.elapsed().as_secs_f64() > secs {
                break;
            }
            nd::seed(seed.wrapping_mul(1_000_003).wrapping_add(i));
            match one(*f) {
                R::Ok => {
                    ok += 1;
                    if distinct.len() < 100_000 {
                        distinct.insert(nd::draws());
                    }
                }
                R::Discard => dis += 1,
                R::Fail(m) => {
                    fail = Some(format!("draws={} {}", show(&nd::draws()), m.replace('\n', " ")));
                    break;
                }
            }
        }
        match fail {
            None => println!("{name} ok {ok} {dis} {}", distinct.len()),
            Some(m) => {
                bad = true;
                println!("{name} FAIL {m}")
            }
        }
    }
    if bad {
        std::process::exit(1);
    }
}
