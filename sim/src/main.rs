//! halosim: deterministic simulation of the DEX with fault injection. See /verif/DESIGN.md.
#![allow(dead_code)]
mod chain;
mod codes;
mod crowd;
mod env;
mod gen;
mod model;
mod msg;
mod num;
mod obs;
mod ops;
mod pinned;
mod props;
mod rng;
mod run;
mod shrink;
mod sim;
mod twin;

use std::collections::BTreeMap;
use std::time::Instant;

use ops::Schedule;
use run::{Job, Reply, Runner, Zygote};
use serde_json::{json, Value};

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}

/// 2: an error of the check itself, never a verdict
fn bail(m: &str) -> ! {
    eprintln!("halosim: {}", m);
    std::process::exit(2);
}

fn load_known(root: &str) -> Vec<(String, String, String)> {
    let p = format!("{}/known_findings.json", root);
    let v: Value = match run::slurp(&p) {
        Some(s) => serde_json::from_str(&s).unwrap_or_else(|e| bail(&format!("{}: {}", p, e))),
        None => return vec![],
    };
    v["known"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .iter()
        .map(|x| {
            let g = |k: &str| x[k].as_str().unwrap_or("").to_string();
            (g("property"), g("class"), g("what"))
        })
        .collect()
}

fn main() {
    let quiet = std::env::var("SIMPANIC").is_err();
    std::panic::set_hook(Box::new(move |i| {
        if !quiet {
            eprintln!("{}", i);
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let root = std::env::var("HALOSIM_ROOT").unwrap_or_else(|_| "/verif".into());
    let known = load_known(&root);
    let _ = sim::KNOWN.set(known.iter().map(|k| k.1.clone()).collect());
    match a.get(1).map(|s| s.as_str()) {
        Some("zygote") => run::zygote(),
        Some("check") => check(&a, &root, &known),
        Some("replay") => replay(&a),
        Some("selftest") => selftest(&a),
        Some("explore") => explore(&a),
        Some("one") => one(&a),
        _ => bail("usage: halosim check|replay|selftest|explore|one"),
    }
}

fn short(lines: &[String], n: usize, w: usize) -> Vec<String> {
    lines
        .iter()
        .take(n)
        .map(|l| {
            if l.chars().count() > w {
                l.chars().take(w).collect::<String>() + "..."
            } else {
                l.clone()
            }
        })
        .collect()
}

fn check(a: &[String], root: &str, known: &[(String, String, String)]) {
    let focus = arg(a, "--property").unwrap_or_else(|| bail("--property missing"));
    let tier = arg(a, "--tier").unwrap_or("quick".into());
    let seed: u64 = arg(a, "--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    let p = match props::find(&focus) {
        Some(p) => p,
        None => bail("no such property"),
    };
    let thorough = tier == "thorough";
    let threads: usize = arg(a, "--threads").and_then(|x| x.parse().ok()).unwrap_or(8);
    let n: u64 = arg(a, "--runs")
        .and_then(|x| x.parse().ok())
        .unwrap_or(if thorough { p.quick * 60 } else { p.quick });
    let cap: u64 = arg(a, "--cap").and_then(|x| x.parse().ok()).unwrap_or(if thorough { 2400 } else { 500 });
    println!("halosim {} {} seed={} runs={} workers={}", focus, tier, seed, n, threads);
    let t0 = Instant::now();

    // scenarios kept because they are rare: known findings and past violations
    let mut z = Runner::new(&focus);
    let mut pinned_ran = vec![];
    let mut pinned_hit: Option<(String, Schedule, Reply)> = None;
    for pin in pinned::all() {
        if pin.property != focus {
            continue;
        }
        let r = z.schedule(&pin.sched, &focus, false);
        if let Some(l) = &r.lost {
            bail(&format!("pinned scenario {}: {}", pin.name, l));
        }
        for (prop, class, what) in known {
            if *prop == focus && r.known.contains_key(class) {
                println!("KNOWN-FINDING: property={} {} [{}]", focus, what, class);
            }
        }
        if r.hit(&focus).is_some() && pinned_hit.is_none() {
            pinned_hit = Some((pin.name.to_string(), pin.sched.clone(), r.clone()));
        }
        pinned_ran.push(pin.name.to_string());
    }

    let b = run::batch(seed, n, &focus, threads, cap);
    let sim_wall = t0.elapsed().as_secs_f64();
    let lost: u64 = b.lost.values().sum();
    for (k, v) in &b.lost {
        eprintln!("halosim: {} runs not completed: {}", v, k);
    }

    let mut violation: Option<Value> = None;
    let mut path = String::new();
    let cand: Option<(String, Option<u64>, Option<Schedule>, Reply)> = match (pinned_hit, &b.found) {
        (Some((name, s, r)), _) => Some((format!("pinned {}", name), None, Some(s), r)),
        (None, Some((i, r))) => Some((format!("run {}", i), Some(*i), r.sched.clone(), r.clone())),
        _ => None,
    };
    let mut shrunk_info = json!(null);
    if let Some((origin, run_no, sched, reply)) = cand {
        let v0 = reply.hit(&focus).cloned().unwrap();
        println!("violation in {}: {}: {}", origin, v0.class, v0.msg);
        let budget = if thorough { 240 } else { 60 };
        let (mode, sched, v) = match sched {
            Some(s) => match shrink::shrink(&mut z, &focus, &s, budget) {
                Some(sh) => {
                    let v = sh.reply.hit(&focus).cloned().unwrap_or(v0.clone());
                    shrunk_info = json!({"steps_before": s.steps.len(), "steps_after": sh.sched.steps.len(), "candidates": sh.tried});
                    ("schedule", Some(sh.sched), v)
                }
                // visible only in the run as generated (state left over in memory): keep the run itself
                None => ("run", None, v0.clone()),
            },
            None => ("run", None, v0.clone()),
        };
        let traced = match (&sched, run_no) {
            (Some(s), _) => Runner::new(&focus).schedule(s, &focus, true),
            (None, Some(i)) => Runner::new(&focus).generated(seed, i, &focus, true),
            _ => reply.clone(),
        };
        let mut body = json!({
            "property": focus,
            "class": v.class,
            "message": v.msg,
            "step": v.step,
            "seed": seed,
            "run": run_no,
            "origin": origin,
            "mode": mode,
            "digest": traced.digest.to_string(),
            "schedule": sched,
            "trace": traced.trace,
            "how": format!("{}/check.sh --replay <this file>", root),
        });
        let dir = format!("{}/out/replays", root);
        let _ = std::fs::create_dir_all(&dir);
        path = format!("{}/{}-{}-{}.json", dir, focus, tier, seed);
        if std::fs::write(&path, serde_json::to_vec_pretty(&body).unwrap()).is_err() {
            bail("cannot write the replay file");
        }
        // it must fail the same way in a fresh process
        let mut again = replay_tries(&path, &focus);
        if again.is_none() && run_no.is_some() && mode == "schedule" {
            // the run as generated, unshrunk
            body["mode"] = json!("run");
            if std::fs::write(&path, serde_json::to_vec_pretty(&body).unwrap()).is_err() {
                bail("cannot write the replay file");
            }
            again = replay_tries(&path, &focus);
        }
        match again {
            Some((class, _)) if class == v.class => {}
            Some((class, _)) => println!("note: the replay shows class {} instead of {}", class, v.class),
            // what decides is outside everything the simulator controls, which this property forbids
            None if focus == "C19" => println!("note: not every execution of the replay file fails; the outcome depends on the process"),
            None => bail("the violation did not reproduce from its replay file"),
        }
        if let Some(t) = &traced.trace {
            for l in short(t, 60, 400) {
                println!("  {}", l);
            }
        }
        violation = Some(json!({"class": v.class, "message": v.msg, "replay": path, "origin": origin}));
    }

    // evidence
    let mut samples = vec![];
    for i in [0u64, 1 + rng::mix(seed, 77) % n.max(2)] {
        let mut zz = Zygote::start();
        let r = zz.ask(&Job::Gen {
            seed,
            run: i,
            focus: focus.clone(),
            replica: 0,
            trace: true,
        });
        if let Some(t) = r.trace {
            samples.push(json!({"run": i, "genesis": r.sched.map(|s| s.genesis), "steps": r.steps,
                "simulated_seconds": r.secs, "trace": short(&t, 25, 260)}));
        }
    }
    let pick = |pre: &str| -> BTreeMap<String, u64> {
        b.stats
            .iter()
            .filter(|(k, _)| k.starts_with(pre))
            .map(|(k, v)| (k.clone(), *v))
            .collect()
    };
    let net: BTreeMap<&str, u64> = [
        "transactions delayed",
        "delayed transactions delivered",
        "transactions lost before inclusion",
        "transactions sent twice",
        "front-running transactions",
        "clock or height jumps",
        "retries after a fault",
    ]
    .iter()
    .map(|k| (*k, b.stats.get(*k).copied().unwrap_or(0)))
    .collect();
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": focus,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": if violation.is_some() { 1 } else { 0 },
        "coverage": {
            "evaluations": b.evals,
            "distinct_nontrivial": b.sigs.len(),
            "rule": p.rule,
            "samples": samples,
            "simulated_runs": b.runs,
            "runs_requested": n,
            "runs_not_completed": lost,
            "runs_per_hour": (b.runs as f64 / sim_wall * 3600.0) as u64,
            "seeds_per_hour": (b.runs as f64 / sim_wall * 3600.0) as u64,
            "seed_rule": "run k of batch VERIF_SEED draws everything from one generator seeded with (VERIF_SEED, k, property)",
            "simulated_seconds": b.secs,
            "steps_executed": b.steps,
            "distinct_interleavings": b.paths.len(),
            "interleaving_measure": "hash over a run's sequence of (sender, operation kinds and size classes, outcome, fault fired), one per run",
            "faults_fired": pick("fault fired"),
            "network_and_clock_faults": net,
            "probes": pick("probe"),
            "refusals": pick("refused as it must be"),
            "outside_the_specification": pick("unknown"),
            "counters": b.stats.iter().filter(|(k,_)| !k.starts_with("refused") && !k.starts_with("unknown") && !k.starts_with("probe") && !k.starts_with("fault fired")).collect::<BTreeMap<_,_>>(),
            "known_findings_met": b.known,
            "violations_of_other_properties_seen": b.other,
            "process_clock_or_entropy_reads": b.looked,
            "pinned_scenarios": pinned_ran,
            "shrinking": shrunk_info,
            "components": props::components(),
        },
        "assumptions": props::assumptions(),
    });
    let dir = format!("{}/evidence", root);
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(format!("{}/{}.json", dir, focus), serde_json::to_vec_pretty(&ev).unwrap()).is_err() {
        bail("cannot write the evidence file");
    }
    println!(
        "{} runs ({} steps, {} simulated days) in {:.1}s, {} judged events, {} distinct, {} interleavings",
        b.runs,
        b.steps,
        b.secs / 86400,
        sim_wall,
        b.evals,
        b.sigs.len(),
        b.paths.len()
    );
    if violation.is_some() {
        println!("VIOLATION property={} replay={}", focus, path);
        std::process::exit(1);
    }
    if b.runs == 0 || lost * 2 > b.runs {
        bail("too few runs completed");
    }
    println!("OK property={}", focus);
}

/// Some(class, trace) when the file's violation happens again
fn replay_file(path: &str) -> Option<(String, Vec<String>)> {
    let v: Value = serde_json::from_str(&run::slurp(path)?).ok()?;
    let focus = v["property"].as_str()?.to_string();
    let mut z = Runner::new(&focus);
    let r = if v["mode"] == "run" {
        let mut r = z.generated(v["seed"].as_u64()?, v["run"].as_u64()?, &focus, true);
        if let (Some(l), true) = (&r.lost, focus == "C21") {
            r.viols.push(run::V {
                step: 0,
                props: vec!["C21".into()],
                class: "process-ended".into(),
                msg: l.clone(),
            });
        }
        r
    } else {
        let s: Schedule = serde_json::from_value(v["schedule"].clone()).ok()?;
        z.schedule(&s, &focus, true)
    };
    let h = r.hit(&focus)?.clone();
    let mut t = r.trace.unwrap_or_default();
    t.push(format!("step {}: {}: {}", h.step, h.class, h.msg));
    Some((h.class, t))
}

/// A dependence on what a process happens to be (C19) may need more than one process to show.
fn replay_tries(path: &str, focus: &str) -> Option<(String, Vec<String>)> {
    let tries = if focus == "C19" { 12 } else { 1 };
    (0..tries).find_map(|_| replay_file(path))
}

fn replay(a: &[String]) {
    let path = a.get(2).cloned().unwrap_or_else(|| bail("which file?"));
    let body: Value = match run::slurp(&path).and_then(|s| serde_json::from_str(&s).ok()) {
        Some(v) => v,
        None => bail("unreadable replay file"),
    };
    match replay_tries(&path, body["property"].as_str().unwrap_or("")) {
        Some((class, t)) => {
            for l in &t {
                println!("{}", l);
            }
            println!("reproduced: {} (recorded: {})", class, body["class"].as_str().unwrap_or(""));
            println!("VIOLATION property={} replay={}", body["property"].as_str().unwrap_or(""), path);
            std::process::exit(1);
        }
        None => println!("not reproduced: the recorded violation does not happen on this tree"),
    }
}

/// Many seeds, twice each, in different processes, at another worker count, and as bare schedules:
/// the event histories must agree.
fn selftest(a: &[String]) {
    let n: u64 = arg(a, "--runs").and_then(|x| x.parse().ok()).unwrap_or(200);
    let seed: u64 = arg(a, "--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    let bad = std::sync::Mutex::new(vec![]);
    let next = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= n {
                    break;
                }
                let focus = props::ALL[(i as usize) % props::ALL.len()].id;
                let one = |replica: u64| {
                    let mut z = Zygote::start();
                    z.ask(&Job::Gen {
                        seed,
                        run: i,
                        focus: focus.into(),
                        replica,
                        trace: true,
                    })
                };
                let x = one(0);
                let y = one(0);
                let w = one(5);
                let s = x.sched.clone().unwrap();
                let v = Zygote::start().ask(&Job::Sched {
                    sched: s,
                    focus: focus.into(),
                    replica: 0,
                    trace: true,
                    keep: None,
                });
                let say = |m: &str| bad.lock().unwrap().push(format!("run {} {}: {}", i, focus, m));
                if x.trace != y.trace || x.digest != y.digest || x.sched != y.sched || x.stats != y.stats {
                    say("the same run twice differs");
                }
                if x.trace != w.trace || x.digest != w.digest || x.sched != w.sched {
                    say("the run depends on the process clock or entropy");
                }
                if x.digest != v.digest || x.trace != v.trace {
                    say("the schedule alone gives another history");
                }
                if x.lost.is_some() {
                    say("not completed");
                }
            });
        }
    });
    let bad = bad.into_inner().unwrap();
    for b in bad.iter().take(20) {
        println!("{}", b);
    }
    println!("selftest: {} runs x 4 executions, {} disagreements", n, bad.len());
    if !bad.is_empty() {
        std::process::exit(2);
    }
}

/// All properties at once, nothing stops a run: for working on the simulator.
fn explore(a: &[String]) {
    let focus = a.get(2).cloned().unwrap_or("mixed".into());
    let n: u64 = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(100);
    let seed: u64 = a.get(4).and_then(|x| x.parse().ok()).unwrap_or(1);
    let mut classes: BTreeMap<String, (u64, String)> = Default::default();
    let mut stats: BTreeMap<String, u64> = Default::default();
    let t = Instant::now();
    for run in 0..n {
        let mut g = gen::Gen::new(seed, run, &focus);
        let mut s = sim::Sim::new(&g.sched.genesis.clone(), None);
        s.stop_on_focus = false;
        g.run(&mut s);
        s.finish();
        for v in &s.viols {
            let k = format!("{:?} {}", v.props, v.class);
            let e = classes
                .entry(k)
                .or_insert((0, format!("run {} step {}: {}", run, v.step, v.msg)));
            e.0 += 1;
        }
        run::union(&mut stats, &s.stats);
        run::union(&mut stats, &s.known);
    }
    for (k, v) in stats {
        println!("  {} = {}", k, v);
    }
    for (k, v) in classes {
        println!("{} x{}\n    {}", k, v.0, v.1.chars().take(900).collect::<String>());
    }
    println!("{:?}", t.elapsed());
}

/// One run in full.
fn one(a: &[String]) {
    let focus = a.get(2).cloned().unwrap_or("mixed".into());
    let run: u64 = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(0);
    let seed: u64 = a.get(4).and_then(|x| x.parse().ok()).unwrap_or(1);
    let mut g = gen::Gen::new(seed, run, &focus);
    let mut s = sim::Sim::new(&g.sched.genesis.clone(), None);
    s.stop_on_focus = false;
    s.trace = Some(vec![]);
    g.run(&mut s);
    s.finish();
    println!("{:?}\n{:?}", g.sched.genesis, s.b);
    for l in s.trace.unwrap_or_default() {
        println!("{}", l);
    }
}
