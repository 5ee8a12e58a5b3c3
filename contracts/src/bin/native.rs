//! Native runner: `list`, `run <prop> <contract> <secs> <seed> [helper number]`,
//! `replay <prop> <contract> <v,v,v>`, `finding <prop> <contract> <secs> <seed>`.

use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use contracts::native::{Native, Reject};
use contracts::registry::{Contract, Kani, Property};

static LAST: Mutex<String> = Mutex::new(String::new());

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn jl<'a>(v: impl IntoIterator<Item = &'a str>) -> String {
    format!("[{}]", v.into_iter().map(js).collect::<Vec<_>>().join(","))
}

enum Outcome {
    Pass,
    Reject,
    Fail(String),
}

fn exec(c: &Contract, s: &mut Native) -> Outcome {
    s.start();
    LAST.lock().unwrap().clear();
    match catch_unwind(AssertUnwindSafe(|| (c.f)(s))) {
        Ok(()) => Outcome::Pass,
        Err(e) if e.is::<Reject>() => Outcome::Reject,
        Err(_) => Outcome::Fail(LAST.lock().unwrap().clone()),
    }
}

fn find(props: &'static [Property], id: &str, name: &str) -> &'static Contract {
    props
        .iter()
        .filter(|p| p.id == id)
        .flat_map(|p| p.contracts.iter().chain(p.findings))
        .find(|c| c.name == name)
        .unwrap_or_else(|| {
            eprintln!("unknown contract {id}/{name}");
            std::process::exit(2)
        })
}

fn hash(t: &[u64]) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn describe(p: &Property, c: &Contract, finding: bool) -> String {
    let (class, split, bound) = match &c.kani {
        Kani::No => ("none", 0, ""),
        Kani::Full => ("full", 0, ""),
        Kani::Split(n) => ("full", *n, ""),
        Kani::Bounded(b) => ("bounded", 0, *b),
        Kani::SplitBounded(n, b) => ("bounded", *n, *b),
    };
    format!(
        "{{\"prop\":{},\"module\":{},\"name\":{},\"fns\":{},\"kani\":{},\"split\":{},\"bound\":{},\"native\":{},\"finding\":{}}}",
        js(p.id), js(p.module), js(c.name), jl(c.fns.iter().copied()), js(class), split, js(bound), js(c.native), finding
    )
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *LAST.lock().unwrap() = format!("{msg} @ {loc}");
    }));
    let props = contracts::PROPERTIES;
    match a[1].as_str() {
        "list" => {
            for p in props.iter().filter(|p| a.len() < 3 || p.id == a[2]) {
                for c in p.contracts {
                    println!("{}", describe(p, c, false));
                }
                for c in p.findings {
                    println!("{}", describe(p, c, true));
                }
            }
        }
        "run" => {
            let c = find(props, &a[2], &a[3]);
            let secs: f64 = a[4].parse().unwrap();
            let seed: u64 = a[5].parse().unwrap();
            let log = std::env::var("CONTRACT_LOG").ok();
            let start = Instant::now();
            let limit = Duration::from_secs_f64(secs);
            let (mut n, mut rej, mut distinct) = (0u64, 0u64, 0u64);
            let mut seen = std::collections::HashSet::new();
            let mut complete = false;
            let mut hits = std::collections::BTreeMap::new();
            let mut exhausted = false;
            let mut fail = None;
            // helpers only sample
            let helper = a.get(6).is_some_and(|w| w != "0");
            for phase in helper as u32..2 {
                let mut s = if phase == 0 { Native::dfs() } else { Native::rand(seed) };
                // depth-first enumeration first; the rest of the time is sampled
                let end = if phase == 0 { limit.mul_f64(0.2) } else { limit };
                loop {
                    if let Some(f) = &log {
                        let _ = std::fs::write(f, format!("{phase} {n}"));
                    }
                    match exec(c, &mut s) {
                        Outcome::Pass => {
                            n += 1;
                            // the enumeration never repeats; sampled tuples are compared
                            if phase == 0 || (seen.len() < 500_000 && seen.insert(hash(&s.trace))) {
                                distinct += 1;
                            }
                        }
                        Outcome::Reject => rej += 1,
                        Outcome::Fail(m) => {
                            fail = Some((m, s.trace.clone()));
                            break;
                        }
                    }
                    if !s.advance() {
                        exhausted = true;
                        break;
                    }
                    if start.elapsed() > end {
                        break;
                    }
                }
                for (k, v) in s.hits {
                    *hits.entry(k).or_insert(0u64) += v;
                }
                // wide integers only range over a table in the enumeration
                complete |= phase == 0 && exhausted && !s.sampled;
                if fail.is_some() || complete {
                    break;
                }
            }
            let missing: Vec<&str> =
                c.reach.iter().copied().filter(|r| !hits.contains_key(r)).collect();
            println!(
                "{{\"name\":{},\"execs\":{},\"distinct\":{},\"rejected\":{},\"exhausted\":{},\"wall_s\":{:.3},\"reached\":{},\"missing\":{},\"fail\":{},\"trace\":[{}]}}",
                js(c.name),
                n,
                distinct,
                rej,
                complete,
                start.elapsed().as_secs_f64(),
                jl(hits.keys().copied()),
                jl(missing),
                fail.as_ref().map(|f| js(&f.0)).unwrap_or("null".into()),
                fail.as_ref()
                    .map(|f| f.1.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","))
                    .unwrap_or_default(),
            );
            std::process::exit(if fail.is_some() { 1 } else { 0 });
        }
        "replay" => {
            let c = find(props, &a[2], &a[3]);
            let vals = a
                .get(4)
                .map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect())
                .unwrap_or_default();
            let mut s = Native::replay(vals);
            match exec(c, &mut s) {
                Outcome::Pass => println!("PASS"),
                Outcome::Reject => println!("REJECTED"),
                Outcome::Fail(m) => {
                    println!("FAIL {m}");
                    std::process::exit(1)
                }
            }
        }
        _ => std::process::exit(2),
    }
}
