#[macro_use]
mod engine;
mod spec;
mod props;

use engine::*;
use serde_json::json;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{exit, Command};
use std::sync::atomic::AtomicBool;
use std::sync::Mutex;
use std::time::Instant;

fn verif() -> String {
    std::env::var("MC_VERIF").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/..").into())
}

fn known_listed(prop: &str) -> Vec<String> {
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", verif())).unwrap_or_default();
    text.lines()
        .filter(|l| l.starts_with("known: "))
        .filter_map(|l| {
            let mut p = None;
            let mut id = None;
            for w in l.split_whitespace() {
                if let Some(x) = w.strip_prefix("property=") {
                    p = Some(x)
                }
                if let Some(x) = w.strip_prefix("id=") {
                    id = Some(x)
                }
            }
            (p == Some(prop)).then(|| id.unwrap_or("").to_string())
        })
        .collect()
}

fn tier_of(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}
fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

fn write_violation(prop: &str, tier: Tier, v: &Violation) {
    let path = format!("{}/evidence/{prop}.violation.json", verif());
    let j = json!({
        "property": prop, "tier": tier_name(tier), "stage": v.stage, "key": v.key,
        "what": v.what, "detail": v.detail,
        "how": format!("cd /verif && ./check.sh replay evidence/{prop}.violation.json"),
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    println!("--- {} in stage {} case {:?}\n{}", v.what, v.stage, v.key, v.detail);
    println!("VIOLATION property={prop} replay={path}");
    use std::io::Write;
    let _ = std::io::stdout().flush();
}

fn write_evidence(run: &Run, wall: f64, violations: usize) {
    let reps = run.reports.lock().unwrap();
    let stages: Vec<_> = reps
        .iter()
        .map(|r| {
            let mut o = json!({"stage": r.name, "bounds": r.bounds, "executions": r.executions,
                "states": r.states, "transitions": r.transitions, "wall_s": (r.wall*100.0).round()/100.0});
            if r.capped {
                o["states_counted_up_to_cap"] = json!(true);
            }
            if let Some(d) = r.max_depth {
                o["depth_reached"] = json!(d);
            }
            o
        })
        .collect();
    let samples: Vec<String> =
        reps.iter().flat_map(|r| r.samples.iter().take(3).map(|s| format!("{}: {}", r.name, s))).collect();
    let sum = |f: fn(&StageReport) -> u64| reps.iter().map(f).sum::<u64>();
    let known: Vec<_> = run
        .known_seen
        .lock()
        .unwrap()
        .iter()
        .map(|(k, (n, w))| json!({"id": k, "executions": n, "what": w}))
        .collect();
    let j = json!({
        "property": run.prop, "tier": tier_name(run.tier),
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0),
        "level": "model_checking",
        "coverage": {
            "states": sum(|r| r.states),
            "transitions": sum(|r| r.transitions),
            "traces_validated_against_impl": sum(|r| r.executions),
            "exhaustive": violations == 0 && run.only.is_none(),
            "rule": "every execution of every stage ran the real code and was compared with the reference model; states = distinct model states/observations (per stage, deduplicated by hash), transitions = compared implementation steps",
            "stages": stages,
            "known_findings_hit": known,
            "samples": samples,
        },
        "assumptions": *run.assumptions.lock().unwrap(),
        "wall_s": (wall*100.0).round()/100.0,
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
    std::fs::write(
        format!("{}/evidence/{}.json", verif(), run.prop),
        serde_json::to_string_pretty(&j).unwrap() + "\n",
    )
    .expect("evidence");
}

fn new_run(prop: &str, tier: Tier, slots: Slots, replay: Option<(String, Vec<u64>)>, only: Option<String>) -> Run {
    Run {
        prop: prop.into(),
        tier,
        replay,
        replayed: AtomicBool::new(false),
        slots,
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16),
        only,
        known_listed: known_listed(prop),
        known_seen: Default::default(),
        reports: Mutex::new(vec![]),
        violation: Mutex::new(None),
        stop: AtomicBool::new(false),
        assumptions: Mutex::new(vec![]),
    }
}

fn print_known(run: &Run) {
    for (id, (n, what)) in run.known_seen.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={} id={id} {what} ({n} executions)", run.prop);
    }
}

/// explores in this process
fn child(prop: &str, tier: Tier, slots: Slots, only: Option<String>) -> i32 {
    install_panic_hook();
    let f = match props::find(prop) {
        Some(f) => f,
        None => {
            eprintln!("unknown property {prop}");
            return 2;
        }
    };
    let run: &'static Run = Box::leak(Box::new(new_run(prop, tier, slots, None, only)));
    let t0 = Instant::now();
    let t1 = t0;
    watchdog(run, move |v| {
        write_violation(&run.prop, run.tier, &v);
        write_evidence(run, t1.elapsed().as_secs_f64(), 1);
        exit(1);
    });
    f(run);
    let v = run.violation.lock().unwrap().clone();
    write_evidence(run, t0.elapsed().as_secs_f64(), v.is_some() as usize);
    print_known(run);
    if let Some(v) = v {
        write_violation(prop, tier, &v);
        return 1;
    }
    println!("property {prop}: held on everything explored ({:.1}s)", t0.elapsed().as_secs_f64());
    0
}

/// runs one execution; exit code 0 held, 1 violated
fn one(prop: &str, tier: Tier, stage: &str, key: Vec<u64>, quiet: bool) -> i32 {
    install_panic_hook();
    let f = props::find(prop).expect("property");
    let run: &'static Run =
        Box::leak(Box::new(new_run(prop, tier, Slots::anon(), Some((stage.into(), key)), None)));
    watchdog(run, move |v| {
        println!("--- {}: {}", v.what, v.detail);
        exit(1);
    });
    f(run);
    print_known(run);
    if !run.replayed.load(std::sync::atomic::Ordering::Relaxed) {
        println!("no stage {stage} in {prop}");
        return 2;
    }
    let v = run.violation.lock().unwrap().clone();
    match v {
        Some(v) => {
            if !quiet {
                println!("--- {} in stage {} case {:?}\n{}", v.what, v.stage, v.key, v.detail);
            }
            println!("replay: property {prop} VIOLATED");
            1
        }
        None => {
            println!("replay: property {prop} held in this execution");
            0
        }
    }
}

fn limited(cmd: &mut Command) -> &mut Command {
    unsafe {
        cmd.pre_exec(|| {
            let lim = libc::rlimit { rlim_cur: 14 << 30, rlim_max: 14 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            Ok(())
        })
    }
}

fn supervise(prop: &str, tier: Tier, only: Option<String>) -> i32 {
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
    for f in [format!("{}/evidence/{prop}.violation.json", verif()), format!("{}/evidence/{prop}.json", verif())] {
        let _ = std::fs::remove_file(f);
    }
    let t0 = Instant::now();
    let slotfile = format!("{}/evidence/.{prop}.{}.slots", verif(), std::process::id());
    let slots = Slots::open(&slotfile, true);
    let exe = std::env::current_exe().unwrap();
    let mut cmd = Command::new(&exe);
    cmd.args(["child", prop, tier_name(tier), &slotfile]);
    if let Some(o) = &only {
        cmd.arg(o);
    }
    let st = limited(&mut cmd).status();
    let _ = std::fs::remove_file(&slotfile);
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot start: {e}");
            return 2;
        }
    };
    if let Some(c) = st.code() {
        return c;
    }
    let sig = st.signal().unwrap_or(0);
    eprintln!("exploration died with signal {sig}; looking for the execution that did it");
    if sig == libc::SIGKILL || sig == libc::SIGTERM || sig == libc::SIGINT {
        return 2;
    }
    for t in 0..64 {
        let Some((stage, key)) = slots.current(t) else { continue };
        let mut cmd = Command::new(&exe);
        let ks = key.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(",");
        cmd.args(["one", prop, tier_name(tier), &stage, &ks]);
        cmd.stdout(std::process::Stdio::null());
        if let Ok(s) = limited(&mut cmd).status() {
            if s.code() == Some(0) {
                continue;
            }
            let v = Violation {
                stage,
                key,
                what: "crashes the process".into(),
                detail: format!("signal {:?}, exit {:?} (abort: stack overflow or allocation failure)", s.signal(), s.code()),
            };
            write_violation(prop, tier, &v);
            let run = new_run(prop, tier, Slots::anon(), None, only);
            write_evidence(&run, t0.elapsed().as_secs_f64(), 1);
            return 1;
        }
    }
    eprintln!("the crash (signal {sig}) does not reproduce in isolation");
    2
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    let code = match s[..] {
        ["run", p, t] => supervise(p, tier_of(t), None),
        ["run", p, t, only] => supervise(p, tier_of(t), Some(only.into())),
        ["child", p, t, slots] => child(p, tier_of(t), Slots::open(slots, false), None),
        ["child", p, t, slots, only] => child(p, tier_of(t), Slots::open(slots, false), Some(only.into())),
        ["one", p, t, stage, key] => one(p, tier_of(t), stage, key.split(',').filter_map(|k| k.parse().ok()).collect(), true),
        ["replay", f] => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).expect("replay file")).expect("json");
            let key: Vec<u64> = j["key"].as_array().unwrap().iter().map(|k| k.as_u64().unwrap()).collect();
            one(j["property"].as_str().unwrap(), tier_of(j["tier"].as_str().unwrap()), j["stage"].as_str().unwrap(), key, false)
        }
        ["aux", ref rest @ ..] => props::aux(rest),
        ["list"] => {
            for p in props::ids() {
                println!("{p}")
            }
            0
        }
        _ => {
            eprintln!("usage: mc run ID quick|thorough [stage] | replay FILE | list");
            2
        }
    };
    exit(code);
}
