mod gen;
mod sim;
mod vtime;

use gen::{shrink, Src};
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn num(name: &str, d: u64) -> u64 {
    arg(name).and_then(|s| s.parse().ok()).unwrap_or(d)
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("XG_TRACE").is_ok() {
            eprintln!("PANIC {} at {}", m, loc);
        }
        sim::PANICS.lock().unwrap().push(format!("{} at {}", m, loc));
    }));
    let mode = std::env::args().nth(1).unwrap_or_default();
    match mode.as_str() {
        "sim" => sim_main(),
        _ => {
            eprintln!("unknown mode {:?}", mode);
            std::process::exit(2)
        }
    }
}

fn sim_main() {
    let prop = arg("--prop").unwrap();
    let seed = num("--seed", 1);
    let cases = num("--cases", 100);
    let secs = num("--secs", 3600);
    let dir = PathBuf::from(arg("--dir").unwrap());
    let out = arg("--out");
    std::fs::create_dir_all(&dir).unwrap();
    // execute() signals its whole process group when it is done: have one of our own
    unsafe { libc::setsid() };
    vtime::enable();
    if let Some(rp) = arg("--replay") {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&rp).unwrap()).unwrap();
        let ch: Vec<u64> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
        let mut res = None;
        for _ in 0..3 {
            let o = sim::run_case(&mut Src::replay(ch.clone()), &prop, &dir.join("c"), 15_000);
            if let Some(f) = o.fail {
                if f.tag == prop {
                    res = Some((f, o.trace));
                    break;
                }
            }
        }
        match res {
            Some((f, t)) => {
                println!("{}: {}\n{}", f.tag, f.msg, t.join("\n"));
                std::process::exit(1)
            }
            None => std::process::exit(0),
        }
    }
    if let Some(one) = arg("--one") {
        for _ in 0..num("--times", 1) {
            let o = sim::run_case(&mut Src::random(one.parse().unwrap()), &prop, &dir.join("c"), 3_000);
            println!("{}\n{:?}", o.trace.join("\n"), o.fail);
        }
        return;
    }
    let t0 = vtime::real();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut shapes: HashSet<u64> = HashSet::new();
    let mut nontriv: HashSet<u64> = HashSet::new();
    let mut samples: Vec<serde_json::Value> = vec![];
    let mut foreign: BTreeMap<String, u64> = BTreeMap::new();
    let mut foreign_msgs: Vec<String> = vec![];
    let mut failure = serde_json::Value::Null;
    let mut unconfirmed: Vec<String> = vec![];
    let mut done = 0;
    for c in 0..cases {
        if (vtime::real() - t0).as_secs() >= secs {
            break;
        }
        let cs = seed.wrapping_mul(0x1000003).wrapping_add(c).wrapping_mul(0x9E3779B97F4A7C15);
        let mut src = Src::random(cs);
        let o = sim::run_case(&mut src, &prop, &dir.join(format!("c{}", c % 2)), 15_000);
        done += 1;
        for (k, v) in &o.stats.classes {
            *classes.entry(k.clone()).or_insert(0) += v;
        }
        shapes.insert(o.shape);
        if sim::nontrivial(&prop, &o.stats) && nontriv.insert(o.shape) && samples.len() < 3 && o.fail.is_none() && o.trace.len() < 60 {
            samples.push(serde_json::json!({"seed": cs, "choices": src.rec.len(), "history": o.trace.iter().take(60).collect::<Vec<_>>()}));
        }
        if let Some(f) = o.fail {
            if f.tag != prop {
                *foreign.entry(f.tag.clone()).or_insert(0) += 1;
                if foreign_msgs.len() < 5 {
                    foreign_msgs.push(format!("seed {}: {}: {}", cs, f.tag, f.msg));
                }
                if foreign.values().sum::<u64>() > 60 {
                    break; // each leaks a runtime
                }
                continue;
            }
            // confirm, then shrink
            let rec = src.rec.clone();
            let again = |rec: &Vec<u64>, times: u32, want: u32| {
                let mut n = 0;
                let mut last = None;
                for _ in 0..times {
                    let o = sim::run_case(&mut Src::replay(rec.clone()), &prop, &dir.join("r"), 15_000);
                    if o.fail.as_ref().map_or(false, |f| f.tag == prop) {
                        last = Some(o);
                        n += 1;
                        if n == want {
                            break;
                        }
                    }
                }
                if n >= want { last } else { None }
            };
            // the real processes and sockets in a case leave some freedom to chance: a failure that cannot be
            // reproduced is recorded but not reported
            if again(&rec, 5, 2).is_none() {
                if unconfirmed.len() < 10 {
                    unconfirmed.push(format!("seed {}: {}", cs, f.msg));
                }
                if unconfirmed.len() >= 10 {
                    break;
                }
                continue;
            }
            let ts = vtime::real();
            let limit = num("--shrink-secs", 25);
            let (mut best, tries) = shrink(rec.clone(), 400, || (vtime::real() - ts).as_secs() > limit, |c| {
                let o = sim::run_case(&mut Src::replay(c.to_vec()), &prop, &dir.join("r"), 1_500);
                o.fail.map_or(false, |f| f.tag == prop)
            });
            let mut last = again(&best, 4, 1);
            if last.is_none() {
                last = again(&rec, 4, 1);
                best = rec;
            }
            let (msg, trace) = match last {
                Some(o) => (o.fail.unwrap().msg, o.trace),
                None => (f.msg.clone(), o.trace),
            };
            failure = serde_json::json!({"prop": prop, "engine": "sim", "seed": cs, "choices": best, "msg": msg, "original_msg": f.msg, "confirmed": true, "history": trace, "shrink_tries": tries});
            break;
        }
    }
    let r = serde_json::json!({
        "cases": done, "distinct": shapes.len(), "nontrivial": nontriv.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>(),
        "classes": classes, "samples": samples, "foreign": foreign, "foreign_msgs": foreign_msgs, "failure": failure, "unconfirmed": unconfirmed,
        "secs": (vtime::real() - t0).as_secs_f64(),
    });
    match out {
        Some(p) => std::fs::write(p, serde_json::to_string(&r).unwrap()).unwrap(),
        None => println!("{}", serde_json::to_string_pretty(&r).unwrap()),
    }
    unsafe { libc::_exit(0) }
}
