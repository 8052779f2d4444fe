//! Command line, worker pool, replay files, evidence.
use std::{
    collections::BTreeMap,
    io::Write,
    path::PathBuf,
    sync::{
        Mutex,
        atomic::{AtomicBool, AtomicU64, Ordering},
    },
    time::{Duration, Instant},
};

use serde::{Deserialize, Serialize};

use crate::{node, plan::*, props, rng::*, shrink, sim::Stats};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub msg: String,
    #[serde(default)]
    pub trace_hash: u64,
    pub plan: Plan,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Finding {
    pub id: String,
    pub property: String,
    pub what: String,
    pub class: String,
    pub plan: Plan,
}

#[derive(Default, Serialize, Deserialize)]
pub struct Known {
    #[serde(default)]
    pub findings: Vec<Finding>,
    #[serde(default)]
    pub fixed: Vec<String>,
}

fn root() -> PathBuf {
    if let Ok(r) = std::env::var("GSIM_ROOT") {
        return r.into();
    }
    std::env::current_dir().unwrap()
}

fn seed_env() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
fn tier() -> String {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough".into(),
        _ => "quick".into(),
    }
}

fn prop_salt(p: &str) -> u64 {
    p.bytes().fold(7, |a, b| mix(a ^ b as u64))
}

/// the i-th run of a check
fn plan_of(prop: &str, base: u64, i: u64) -> Plan {
    let seed = mix(mix(base) ^ prop_salt(prop) ^ mix(i.wrapping_mul(0x9E37)));
    let vs = props::variants(prop);
    let total: u32 = vs.iter().map(|v| v.0).sum();
    let mut x = (i % total as u64) as u32;
    let mut v = vs[0];
    for c in &vs {
        if x < c.0 {
            v = *c;
            break;
        }
        x -= c.0;
    }
    Plan { kind: v.1.into(), prof: v.2.into(), seed: seed >> 1, allow: vec![], acts: None }
}

pub fn main() {
    node::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("work") => work(&a[2]),
        Some("replay") => replay(&a[2]),
        Some("one") => one(&a[2], a[3].parse().unwrap()),
        Some("at") => at(&a[2], a[3].parse().unwrap()),
        Some("prof") => prof(&a[2], a[3].parse().unwrap()),
        Some("determinism") => determinism(a.get(2).and_then(|s| s.parse().ok()).unwrap_or(200)),
        _ => {
            eprintln!("usage: gsim check P | replay FILE | one P INDEX | prof NAME COUNT");
            2
        }
    };
    let _ = std::io::stdout().flush();
    // threads of hung runs are left behind on purpose
    std::process::exit(code);
}

fn scratch(prop: &str) -> PathBuf {
    let d = root().join("sim/harness/target/run").join(prop);
    let _ = std::fs::create_dir_all(&d);
    d
}

/// supervises the process doing the work, which the code under test may kill
fn check(prop: &str) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let dir = scratch(prop);
    let st = std::process::Command::new(&exe).args(["work", prop]).status();
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot start: {e}");
            return 2;
        }
    };
    if let Some(c) = st.code() {
        return c;
    }
    // killed by a signal: which run was it?
    eprintln!("worker ended by {st}");
    let base = seed_env();
    let mut culprit = None;
    if let Ok(rd) = std::fs::read_dir(&dir) {
        let mut idx: Vec<u64> = rd
            .flatten()
            .filter(|e| e.file_name().to_string_lossy().starts_with('w'))
            .filter_map(|e| std::fs::read_to_string(e.path()).ok()?.trim().parse().ok())
            .collect();
        idx.sort();
        for i in idx {
            let tr = dir.join(format!("trace-{i}"));
            let _ = std::fs::remove_file(&tr);
            let s = std::process::Command::new(&exe)
                .args(["one", prop, &i.to_string()])
                .env("GSIM_TRACE", &tr)
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .status();
            if let Ok(s) = s {
                if s.code().is_none() {
                    culprit = Some((i, format!("{s}"), tr));
                    break;
                }
            }
        }
    }
    let Some((i, how, tr)) = culprit else {
        eprintln!("no run ends that way when repeated alone");
        return 2;
    };
    let acts: Vec<Act> = std::fs::read_to_string(&tr)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| serde_json::from_str(l).ok())
        .collect();
    let mut plan = plan_of(prop, base, i);
    let last = show(acts.last());
    if !acts.is_empty() {
        plan.acts = Some(acts);
    }
    let r = Replay {
        property: prop.into(),
        class: "abort".into(),
        msg: format!("the process was ended ({how}) in {last}"),
        trace_hash: 0,
        plan,
    };
    let path = save(&r, i);
    println!("{}", r.msg);
    println!("VIOLATION property={prop} replay={}", path.display());
    1
}

fn save(r: &Replay, i: u64) -> PathBuf {
    let d = root().join("replays");
    let _ = std::fs::create_dir_all(&d);
    let f = d.join(format!("{}-{}-{}.json", r.property, r.class, i));
    let _ = std::fs::write(&f, serde_json::to_string_pretty(r).unwrap());
    f
}

fn known() -> Known {
    match std::fs::read_to_string(root().join("known-findings.json")) {
        Ok(s) => serde_json::from_str(&s).expect("known-findings.json"),
        Err(_) => Known::default(),
    }
}

fn budget(prop: &str) -> Duration {
    if let Ok(s) = std::env::var("GSIM_SECS") {
        return Duration::from_secs_f64(s.parse().unwrap());
    }
    let _ = prop;
    Duration::from_secs(if tier() == "thorough" { 600 } else { 16 })
}

pub fn workers() -> usize {
    std::env::var("GSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 16)
    })
}

fn work(prop: &str) -> i32 {
    let t0 = Instant::now();
    let base = seed_env();
    println!("property {prop} VERIF_SEED {base} tier {}", tier());
    if props::variants(prop).is_empty() {
        eprintln!("nothing decides {prop}");
        return 2;
    }
    let mut known_hit = 0;
    for f in known().findings.iter().filter(|f| f.property == prop) {
        let o = run(&f.plan);
        match o.viol {
            Some(v) if v.class == f.class => {
                known_hit += 1;
                println!("KNOWN-FINDING: property={prop} {} [{}]", f.what, f.id);
            }
            // outside what the model describes: nothing to conclude from a
            // different way to fail, the search below judges the rest
            Some(v) => println!("known finding {} now fails differently: [{}] {}", f.id, v.class, v.msg),
            None => println!("known finding {} no longer fails", f.id),
        }
    }
    let dir = scratch(prop);
    let end = Instant::now() + budget(prop);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let total: Mutex<Stats> = Mutex::default();
    let samples: Mutex<Vec<serde_json::Value>> = Mutex::default();
    let found: Mutex<Option<(u64, Plan, Outcome)>> = Mutex::default();
    std::thread::scope(|sc| {
        for w in 0..workers() {
            let (next, stop, total, samples, found, dir) = (&next, &stop, &total, &samples, &found, &dir);
            sc.spawn(move || {
                let file = dir.join(format!("w{w}"));
                let mut st = Stats::default();
                while !stop.load(Ordering::Relaxed) && Instant::now() < end {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    let p = plan_of(prop, base, i);
                    let _ = std::fs::write(&file, i.to_string());
                    let mut o = run(&p);
                    if o.viol.is_some() {
                        stop.store(true, Ordering::Relaxed);
                        let mut f = found.lock().unwrap();
                        if f.as_ref().is_none_or(|x| x.0 > i) {
                            *f = Some((i, p, o));
                        }
                        break;
                    }
                    if i % 97 == 3 {
                        let mut s = samples.lock().unwrap();
                        if s.len() < 3 {
                            let short: Vec<_> = o.acts.iter().take(12).map(|a| show(Some(a))).collect();
                            s.push(serde_json::json!({
                                "seed": p.seed, "kind": p.kind, "profile": p.prof,
                                "actions": o.acts.len(), "first_actions": short,
                            }));
                        }
                    }
                    st.merge(std::mem::take(&mut o.stats));
                }
                let _ = std::fs::remove_file(&file);
                total.lock().unwrap().merge(st);
            });
        }
    });
    let st = total.into_inner().unwrap();
    let found = found.into_inner().unwrap();
    let samples = samples.into_inner().unwrap();
    let bad = found.is_some();
    evidence(prop, base, &st, samples, t0.elapsed(), bad as u64, known_hit);
    if let Some((i, p, o)) = found {
        let v = o.viol.unwrap();
        println!("run {i} (seed {}, {} {}): [{}] {}", p.seed, p.kind, p.prof, v.class, v.msg);
        let mut acts = o.acts;
        let before = acts.len();
        acts = shrink::shrink(&p, acts, &v.class, Duration::from_secs(if v.class == "hang" { 0 } else { 25 }));
        let plan = Plan { acts: Some(acts), ..p.clone() };
        let (mut msg, mut th) = (v.msg.clone(), 0);
        let mut plan_out = Plan { ..plan.clone() };
        if v.class != "hang" {
            let again = run(&plan);
            match again.viol {
                Some(w) if w.class == v.class => {
                    msg = w.msg;
                    th = again.stats.trace;
                }
                _ => {
                    // only the generated run fails: keep its seed
                    plan_out = Plan { acts: None, ..p.clone() };
                }
            }
        }
        println!("minimised from {before} to {} actions: [{}] {msg}", plan_out.acts.as_ref().map_or(before, |a| a.len()), v.class);
        let r = Replay { property: prop.into(), class: v.class, msg, trace_hash: th, plan: plan_out };
        let f = save(&r, i);
        println!("VIOLATION property={prop} replay={}", f.display());
        return 1;
    }
    println!(
        "{prop}: held in {} runs, {} steps, {} checks, {} distinct states, {:.1} s",
        st.runs, st.steps, st.checks, st.states.len(), t0.elapsed().as_secs_f64()
    );
    0
}

fn replay(file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("replay file");
    let r: Replay = serde_json::from_str(&s).expect("replay file");
    let o = run(&r.plan);
    match o.viol {
        None => {
            println!("{}: no violation", r.property);
            0
        }
        Some(v) => {
            println!("[{}] {}", v.class, v.msg);
            if r.trace_hash != 0 && o.stats.trace != 0 {
                println!("schedule trace {:016x} ({})", o.stats.trace, if o.stats.trace == r.trace_hash { "as recorded" } else { "differs from the recorded one" });
            }
            println!("VIOLATION property={} replay={file}", r.property);
            1
        }
    }
}

fn one(prop: &str, i: u64) -> i32 {
    let p = plan_of(prop, seed_env(), i);
    let o = run(&p);
    match o.viol {
        Some(v) => {
            println!("{}\n[{}] {}", serde_json::to_string(&o.acts).unwrap(), v.class, v.msg);
            1
        }
        None => {
            println!("ok {} acts trace {:016x}", o.acts.len(), o.stats.trace);
            0
        }
    }
}

fn at(name: &str, i: u64) -> i32 {
    let (kind, name) = name.split_once(':').unwrap_or(("db", name));
    let allow: Vec<String> =
        std::env::var("GSIM_ALLOW").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    let p = Plan { kind: kind.into(), prof: name.into(), seed: mix(mix(seed_env()) ^ i) >> 1, allow, acts: None };
    let o = run(&p);
    println!("{:?} {} acts", o.viol, o.acts.len());
    o.viol.is_some() as i32
}

/// development: many runs of one profile, grouping the failures
fn prof(name: &str, n: u64) -> i32 {
    let (kind, name) = name.split_once(':').unwrap_or(("db", name));
    let next = AtomicU64::new(0);
    let groups: Mutex<BTreeMap<String, (u64, Plan, String, Vec<Act>)>> = Mutex::default();
    let total: Mutex<Stats> = Mutex::default();
    let t0 = Instant::now();
    let allow: Vec<String> =
        std::env::var("GSIM_ALLOW").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    std::thread::scope(|sc| {
        for _ in 0..workers() {
            sc.spawn(|| {
                let mut st = Stats::default();
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    let seed = mix(mix(seed_env()) ^ i) >> 1;
                    let p = Plan { kind: kind.into(), prof: name.into(), seed, allow: allow.clone(), acts: None };
                    let o = run(&p);
                    if let Some(v) = o.viol {
                        let key: String = format!("[{}] {}", v.class, v.msg)
                            .chars()
                            .filter(|c| !c.is_ascii_digit())
                            .take(90)
                            .collect();
                        let mut g = groups.lock().unwrap();
                        let e = g.entry(key).or_insert((0, p.clone(), v.msg.clone(), o.acts.clone()));
                        e.0 += 1;
                        if o.acts.len() < e.3.len() {
                            *e = (e.0, p, v.msg, o.acts);
                        }
                    }
                    st.merge(o.stats);
                }
                total.lock().unwrap().merge(st);
            });
        }
    });
    let st = total.into_inner().unwrap();
    let dt = t0.elapsed().as_secs_f64();
    println!(
        "{n} runs in {dt:.1} s; steps {} skipped {} ok {} refused {} checks {} queries {} rows {} calls {} states {}",
        st.steps, st.skipped, st.writes_ok, st.writes_refused, st.checks, st.queries, st.rows, st.engine_calls, st.states.len()
    );
    println!("faults {:?}\nevents {:?}", st.faults.iter().map(|(k, v)| format!("{k}:{v}")).collect::<Vec<_>>().join(" "), st.events);
    let g = groups.into_inner().unwrap();
    for (k, (c, p, msg, acts)) in &g {
        let class = k[1..].split(']').next().unwrap().to_string();
        let small = shrink::shrink(p, acts.clone(), &class, Duration::from_secs(10));
        println!("== {c} x seed {} {}\n   {}", p.seed, k, msg.chars().take(900).collect::<String>());
        let q = Plan { acts: Some(small.clone()), ..p.clone() };
        let o = run(&q);
        println!("   {} acts -> {}", small.len(), o.viol.map(|v| v.msg.chars().take(700).collect::<String>()).unwrap_or_default());
        for a in &small {
            println!("     {}", show(Some(a)));
        }
        let r = Replay { property: name.into(), class, msg: msg.clone(), trace_hash: 0, plan: q };
        save(&r, *c);
    }
    println!("{} kinds of failure", g.len());
    (!g.is_empty()) as i32
}

/// every run twice, in whatever worker picks it up: same trace, same outcome
fn determinism(n: u64) -> i32 {
    let props: Vec<String> = (1..=33).map(|i| format!("C{i:02}")).filter(|p| !props::variants(p).is_empty()).collect();
    let jobs: Vec<(String, u64)> = props.iter().flat_map(|p| (0..n).map(move |i| (p.clone(), i))).collect();
    let next = AtomicU64::new(0);
    let bad = AtomicU64::new(0);
    let out: Mutex<Vec<(usize, u64, u64)>> = Mutex::default();
    std::thread::scope(|sc| {
        for _ in 0..workers() {
            sc.spawn(|| {
                loop {
                    let j = next.fetch_add(1, Ordering::Relaxed) as usize;
                    if j >= jobs.len() {
                        break;
                    }
                    let (p, i) = &jobs[j];
                    let p = plan_of(p, seed_env(), *i);
                    let h = |o: &Outcome| {
                        let s = serde_json::to_string(&o.acts).unwrap();
                        s.bytes().fold(o.stats.trace, |a, b| mix(a ^ b as u64))
                    };
                    let a = run(&p);
                    let b = run(&p);
                    if h(&a) != h(&b) || a.stats.steps != b.stats.steps {
                        bad.fetch_add(1, Ordering::Relaxed);
                        println!("not repeatable: {} {} seed {}", p.kind, p.prof, p.seed);
                    }
                    out.lock().unwrap().push((j, h(&a), a.stats.steps));
                }
            });
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort();
    let d = v.iter().fold(0u64, |a, x| mix(a ^ x.1));
    println!("{} runs twice each, {} not repeatable, digest {d:016x}", jobs.len(), bad.load(Ordering::Relaxed));
    (bad.load(Ordering::Relaxed) > 0) as i32
}

fn evidence(
    prop: &str,
    seed: u64,
    st: &Stats,
    samples: Vec<serde_json::Value>,
    wall: Duration,
    violations: u64,
    known: u64,
) {
    let secs = wall.as_secs_f64().max(0.001);
    let e = serde_json::json!({
        "property": prop,
        "tier": tier(),
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": st.traces.len(),
            "rule": props::rule(prop),
            "samples": samples,
            "runs_per_hour": (st.runs as f64 * 3600.0 / secs) as u64,
            "seeds_per_hour": (st.runs as f64 * 3600.0 / secs) as u64,
            "steps": st.steps,
            "steps_left_out": st.skipped,
            "writes_accepted": st.writes_ok,
            "writes_refused": st.writes_refused,
            "full_comparisons": st.checks,
            "queries": st.queries,
            "query_rows": st.rows,
            "proofs": st.proofs,
            "simulated_time": {
                "unit": "engine calls (the system reads no clock; the scheduler's time is the sequence of storage calls)",
                "engine_calls": st.engine_calls,
            },
            "faults_fired": st.faults,
            "events": st.events,
            "distinct_committed_states": st.states.len(),
            "distinct_schedules": st.traces.len(),
            "known_findings_replayed": known,
            "real_components": props::real(prop),
            "stubbed_components": props::stubs(prop),
        },
        "assumptions": props::assumptions(),
        "wall_s": secs,
        "violations": violations,
    });
    let d = root().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    if let Err(e) = std::fs::write(d.join(format!("{prop}.json")), serde_json::to_string_pretty(&e).unwrap()) {
        eprintln!("evidence: {e}");
    }
}
