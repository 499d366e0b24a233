//! Controller: seeded search over many runs, minimisation, replay files, evidence.

use crate::plan::{self, Plan};
use crate::rt::{self, mix, run_forked, Outcome, Scenario, Trace, NET, OPS};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::os::fd::FromRawFd;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

pub fn scenario(name: &str) -> Option<&'static Scenario> {
    plan::SCENARIOS.iter().find(|s| s.name == name)
}

pub fn variant() -> &'static str {
    if cfg!(feature = "mt") {
        return "threads";
    }
    if cfg!(feature = "full") {
        "full"
    } else {
        "bare"
    }
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

pub fn run_seed(base: u64, sc: &str, i: u64) -> u64 {
    mix(mix(base, hash_str(sc)), i) >> 1
}

// ---------------------------------------------------------------- known findings

#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub id: String,
    pub what: String,
}

/// Lines `known: property=<id> <finding id> <what fails>`; `fixed:` lines suppress nothing.
pub fn known_findings() -> Vec<Known> {
    let f = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    f.lines()
        .filter_map(|l| {
            let l = l.trim().strip_prefix("known: property=")?;
            let (p, l) = l.split_once(' ')?;
            let (id, what) = l.split_once(' ')?;
            Some(Known { property: p.into(), id: id.into(), what: what.into() })
        })
        .collect()
}

// ---------------------------------------------------------------- workers

#[derive(Clone)]
struct Job {
    sc: &'static Scenario,
    base: u64,
    count: u64,
    deadline_ms: u64,
}

/// One line of a worker.
fn report(out: &mut std::fs::File, v: &Value) {
    let mut b = serde_json::to_vec(v).unwrap();
    b.push(b'\n');
    let _ = out.write_all(&b);
}

fn worker(w: u64, nw: u64, jobs: &[Job], mut out: std::fs::File) -> ! {
    rt::map_shared();
    let t0 = Instant::now();
    for (ji, job) in jobs.iter().enumerate() {
        let mut i = w;
        let mut n = 0u64;
        let mut capped = false;
        while i < job.count {
            if t0.elapsed() > Duration::from_millis(job.deadline_ms) {
                capped = true;
                break;
            }
            let seed = run_seed(job.base, job.sc.name, i);
            let t = Trace { scenario: job.sc.name.into(), seed, generate: true, ..Default::default() };
            let check_det = i % 97 == 3;
            let (o, rec) = run_forked(job.sc, &t, check_det);
            let mut det = Value::Null;
            if let (true, Some(rec), false) = (check_det, rec, o.overflow) {
                // the recorded decisions must reproduce the run exactly
                let (o2, _) = run_forked(job.sc, &rec, false);
                let same = o.v["digest"] == o2.v["digest"]
                    && o.v["sched"] == o2.v["sched"]
                    && o.viol.len() == o2.viol.len();
                det = json!(same);
            }
            report(
                &mut out,
                &json!({
                    "j": ji, "i": i, "seed": seed, "d": o.v["digest"], "s": o.v["sched"],
                    "nt": o.v["nontrivial"], "st": o.v["stats"], "ns": o.v["sim_ns"],
                    "v": o.viol.iter().map(|v| json!([v.props, v.class, v.msg])).collect::<Vec<_>>(),
                    "k": o.v["known"], "h": o.harness_err, "det": det, "smp": o.v["sample"],
                    "ev": o.v["events"],
                }),
            );
            n += 1;
            i += nw;
        }
        report(&mut out, &json!({"end": ji, "n": n, "capped": capped}));
    }
    unsafe { libc::_exit(0) }
}

#[derive(Default)]
struct Agg {
    runs: u64,
    per_sc: BTreeMap<String, u64>,
    sim_ns: u128,
    events: u128,
    stats: BTreeMap<String, u64>,
    digests: HashSet<u64>,
    nontrivial: HashSet<u64>,
    scheds: HashSet<u64>,
    samples: Vec<Value>,
    det_checked: u64,
    harness: Vec<String>,
    /// (scenario, seed, props, class, msg)
    viols: Vec<(String, u64, Vec<String>, String, String)>,
    viol_count: BTreeMap<(String, String, Vec<String>), u64>,
    known: BTreeMap<String, (u64, String, u64, String)>,
    capped: bool,
    distinct_over_time: Vec<(u64, usize)>,
}

/// Whether a violation counts against a property: Some(false) if control runs have to confirm it.
fn counts(props: &[String], prop: &str) -> Option<bool> {
    if props.iter().any(|p| p == prop) {
        Some(true)
    } else if props.iter().any(|p| p.strip_prefix('?') == Some(prop)) {
        Some(false)
    } else {
        None
    }
}

/// `ignored`: classes that do not count against the property unless tagged with it
fn explore(jobs: Vec<Job>, nw: u64, stop_on: Option<&str>, ignored: &HashSet<(String, String)>) -> Agg {
    let mut agg = Agg::default();
    let mut pids = vec![];
    let (tx, rx) = std::sync::mpsc::channel::<Option<Value>>();
    let mut pipes = vec![];
    for w in 0..nw {
        let mut fds = [0i32; 2];
        assert_eq!(unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) }, 0);
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(fds[0]);
                worker(w, nw, &jobs, std::fs::File::from_raw_fd(fds[1]))
            }
        }
        unsafe { libc::close(fds[1]) };
        pids.push(pid);
        pipes.push(unsafe { std::fs::File::from_raw_fd(fds[0]) });
    }
    for p in pipes {
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(p).lines().map_while(|l| l.ok()) {
                if let Ok(v) = serde_json::from_str::<Value>(&l) {
                    let _ = tx.send(Some(v));
                }
            }
            let _ = tx.send(None);
        });
    }
    let mut open = nw;
    let mut ends = 0u64;
    let mut stopped = false;
    while open > 0 {
        let v = match rx.recv() {
            Ok(Some(v)) => v,
            Ok(None) => {
                open -= 1;
                continue;
            }
            Err(_) => break,
        };
        if v["end"].is_u64() {
            ends += 1;
            agg.capped |= v["capped"].as_bool().unwrap_or(false);
            continue;
        }
        let sc = jobs[v["j"].as_u64().unwrap() as usize].sc.name.to_string();
        agg.runs += 1;
        *agg.per_sc.entry(sc.clone()).or_default() += 1;
        agg.sim_ns += v["ns"].as_u64().unwrap_or(0) as u128;
        agg.events += v["ev"].as_u64().unwrap_or(0) as u128;
        if let Some(m) = v["st"].as_object() {
            for (k, x) in m {
                let x = x.as_u64().unwrap_or(0);
                *agg.stats.entry(k.clone()).or_default() += x;
            }
        }
        let d = v["d"].as_u64().unwrap_or(0);
        agg.digests.insert(d);
        agg.scheds.insert(v["s"].as_u64().unwrap_or(0));
        if v["nt"].as_bool().unwrap_or(false) {
            agg.nontrivial.insert(d);
        }
        if agg.runs.is_power_of_two() || agg.runs % 1000 == 0 {
            agg.distinct_over_time.push((agg.runs, agg.scheds.len()));
        }
        if let Some(s) = v["smp"].as_str() {
            if agg.samples.len() < 6 && v["i"].as_u64().unwrap_or(0) % 7 == 0 {
                agg.samples.push(json!({"scenario": sc, "seed": v["seed"], "case": s}));
            }
        }
        if let Some(h) = v["h"].as_str() {
            if agg.harness.len() < 10 {
                agg.harness.push(format!("{} seed {}: {}", sc, v["seed"], h));
            }
        }
        match v["det"].as_bool() {
            Some(true) => agg.det_checked += 1,
            Some(false) => {
                agg.harness.push(format!("{} seed {}: replay of the recorded decisions diverged", sc, v["seed"]))
            }
            None => {}
        }
        if let Some(k) = v["k"].as_array() {
            for e in k {
                let id = e[0].as_str().unwrap_or("").to_string();
                let x = agg.known.entry(id).or_insert((
                    0,
                    sc.clone(),
                    v["seed"].as_u64().unwrap_or(0),
                    e[1].as_str().unwrap_or("").to_string(),
                ));
                x.0 += 1;
            }
        }
        let mut stop = false;
        if let Some(a) = v["v"].as_array() {
            for e in a {
                let props: Vec<String> = e[0]
                    .as_array()
                    .map(|p| p.iter().map(|s| s.as_str().unwrap_or("").to_string()).collect())
                    .unwrap_or_default();
                if let Some(p) = stop_on {
                    stop |= match counts(&props, p) {
                        Some(true) => true,
                        Some(false) => !ignored.contains(&(sc.clone(), e[1].as_str().unwrap_or("").to_string())),
                        None => false,
                    };
                }
                let class = e[1].as_str().unwrap_or("").to_string();
                let n = agg.viol_count.entry((sc.clone(), class, props.clone())).or_insert(0u64);
                *n += 1;
                if *n <= 5 || stop {
                    agg.viols.push((
                        sc.clone(),
                        v["seed"].as_u64().unwrap_or(0),
                        props,
                        e[1].as_str().unwrap_or("").into(),
                        e[2].as_str().unwrap_or("").into(),
                    ));
                }
            }
        }
        if stop {
            stopped = true;
            for p in &pids {
                unsafe { libc::kill(*p, libc::SIGKILL) };
            }
            break;
        }
    }
    for p in &pids {
        let mut st = 0;
        unsafe { libc::waitpid(*p, &mut st, 0) };
    }
    if !stopped && ends != nw * jobs.len() as u64 {
        agg.harness.push("a worker process ended early".into());
    }
    agg
}

// ---------------------------------------------------------------- minimisation

fn shows(o: &Outcome, prop: &str, class: &str) -> bool {
    o.viol.iter().any(|v| v.class == class && counts(&v.props, prop).is_some())
}

/// Shrinks a failing trace; the same class of violation of the same property persists.
pub fn minimise(sc: &'static Scenario, t: Trace, prop: &str, class: &str, budget: Duration) -> (Trace, u64) {
    let t0 = Instant::now();
    let mut best = t;
    let mut runs = 0u64;
    // a candidate is tried as is and under a few generated schedules
    let attempt = |cand: &Trace, scheds: u64, runs: &mut u64| -> Option<Trace> {
        for k in 0..=scheds {
            let mut c = cand.clone();
            if k > 0 {
                c.streams.remove(&rt::SCHED);
                c.sched_seed = Some(mix(cand.seed, k));
            }
            *runs += 1;
            let (o, rec) = run_forked(sc, &c, true);
            if shows(&o, prop, class) && !o.overflow && o.harness_err.is_none() {
                let mut rec = rec.unwrap();
                // decisions nobody asks for any more are gone; keep trailing zeros out
                for v in rec.streams.values_mut() {
                    while v.len() > 1 && *v.last().unwrap() == 0 {
                        v.pop();
                    }
                }
                return Some(rec);
            }
        }
        None
    };
    let over = |t0: &Instant| t0.elapsed() > budget;
    let mut round = 0;
    loop {
        let before = best.weight();
        round += 1;
        // drop operations
        let mut chunk = best.streams.keys().filter(|k| **k >= OPS && **k < NET).count();
        chunk = (chunk + 1) / 2;
        while chunk >= 1 && !over(&t0) {
            let keys: Vec<u32> = best.streams.keys().copied().filter(|k| *k >= OPS && *k < NET).collect();
            let mut i = 0;
            while i < keys.len() && !over(&t0) {
                let drop: BTreeSet<u32> = keys[i..(i + chunk).min(keys.len())].iter().copied().collect();
                if drop.iter().all(|k| best.streams.contains_key(k)) {
                    let mut c = best.clone();
                    c.streams.retain(|k, _| !drop.contains(k));
                    if let Some(r) = attempt(&c, 4, &mut runs) {
                        best = r;
                    }
                }
                i += chunk;
            }
            if chunk == 1 {
                break;
            }
            chunk = (chunk + 1) / 2;
        }
        // the schedule: nothing, then pieces of it
        let sched = best.streams.get(&rt::SCHED).cloned().unwrap_or_default();
        if !sched.is_empty() && !over(&t0) {
            let mut c = best.clone();
            c.streams.insert(rt::SCHED, vec![]);
            if let Some(r) = attempt(&c, 0, &mut runs) {
                best = r;
            }
        }
        // zero and halve values, stream by stream
        let keys: Vec<u32> = best.streams.keys().copied().collect();
        for k in keys {
            if over(&t0) {
                break;
            }
            let len = best.streams.get(&k).map_or(0, |v| v.len());
            if len == 0 {
                continue;
            }
            let start = if k >= OPS && k < NET { 1 } else { 0 };
            let mut chunk = (len - start.min(len)).max(1);
            let min_chunk = if k == rt::SCHED { 1.max(len / 64) } else { 1 };
            while chunk >= min_chunk && !over(&t0) {
                let mut i = start;
                loop {
                    let cur = match best.streams.get(&k) {
                        Some(v) => v.clone(),
                        None => break,
                    };
                    if i >= cur.len() || over(&t0) {
                        break;
                    }
                    let end = (i + chunk).min(cur.len());
                    if cur[i..end].iter().any(|x| *x != 0) {
                        let mut c = best.clone();
                        let v = c.streams.get_mut(&k).unwrap();
                        v[i..end].iter_mut().for_each(|x| *x = 0);
                        if let Some(r) = attempt(&c, if k == rt::SCHED { 0 } else { 1 }, &mut runs) {
                            if r.weight() < best.weight() {
                                best = r;
                            }
                        } else if chunk == 1 && cur[i] > 1 && k != rt::SCHED {
                            let mut c = best.clone();
                            c.streams.get_mut(&k).unwrap()[i] /= 2;
                            if let Some(r) = attempt(&c, 0, &mut runs) {
                                if r.weight() < best.weight() {
                                    best = r;
                                    continue;
                                }
                            }
                        }
                    }
                    i += chunk;
                }
                if chunk == 1 {
                    break;
                }
                chunk = (chunk / 2).max(1);
            }
        }
        if over(&t0) || best.weight() >= before || round > 6 {
            break;
        }
    }
    (best, runs)
}

fn first_of(o: &Outcome, prop: &str) -> Option<(String, String)> {
    o.viol
        .iter()
        .find(|v| v.props.iter().any(|p| p == prop))
        .map(|v| (v.class.clone(), v.msg.clone()))
}

/// Minimises, writes and re-runs a replay file. None: it did not reproduce.
fn make_replay(sc: &'static Scenario, seed: u64, prop: &str, class: &str, quick: bool) -> Option<PathBuf> {
    let t = Trace { scenario: sc.name.into(), seed, generate: true, ..Default::default() };
    let (o, rec) = run_forked(sc, &t, true);
    if !shows(&o, prop, class) {
        return None;
    }
    let full = rec?;
    let (min, runs) = if o.overflow {
        (t.clone(), 0)
    } else {
        let (o1, _) = run_forked(sc, &full, false);
        if shows(&o1, prop, class) {
            minimise(sc, full.clone(), prop, class, Duration::from_secs(if quick { 25 } else { 120 }))
        } else {
            (t.clone(), 0)
        }
    };
    // the minimised file, verbosely, twice; or else the run as it was generated
    let twice = |t: &Trace| {
        let mut v = t.clone();
        v.verbose = true;
        let (a, _) = run_forked(sc, &v, false);
        let (b, _) = run_forked(sc, &v, false);
        (shows(&a, prop, class) && shows(&b, prop, class)).then(|| {
            let same = a.v["digest"] == b.v["digest"];
            (a, same)
        })
    };
    let (min, a) = match twice(&min) {
        Some((a, true)) => (min, a),
        other => {
            eprintln!("harness error: the minimised run of {} {} is not repeatable", sc.name, seed);
            match (twice(&t), other) {
                (Some((a, _)), _) => (t.clone(), a),
                (None, Some((a, _))) => (min, a),
                _ => return None,
            }
        }
    };
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}-{}.json", prop, sc.name, seed));
    let (class2, msg) = a
        .viol
        .iter()
        .find(|v| v.class == class && counts(&v.props, prop).is_some())
        .map(|v| (v.class.clone(), v.msg.clone()))
        .unwrap();
    let j = json!({
        "property": prop,
        "variant": variant(),
        "class": class2,
        "message": msg,
        "digest": a.v["digest"],
        "minimised_from": {"ops_nonzero_sum": full.weight(), "seed": seed},
        "minimised_to": min.weight(),
        "minimisation_runs": runs,
        "trace": min.to_json(),
        "history": a.v["log"],
        "how": format!("bash /verif/replay.sh {}", p.display()),
    });
    let mut f = std::fs::File::create(&p).ok()?;
    f.write_all(&serde_json::to_vec_pretty(&j).unwrap()).ok()?;
    Some(p)
}

pub fn replay(path: &Path) -> i32 {
    let j: Value = match std::fs::read(path).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(j) => j,
        None => {
            eprintln!("cannot read {}", path.display());
            return 2;
        }
    };
    let mut t = match Trace::from_json(&j["trace"]) {
        Some(t) => t,
        None => return 2,
    };
    t.verbose = true;
    let sc = match scenario(&t.scenario) {
        Some(s) => s,
        None => return 2,
    };
    rt::map_shared();
    let (o, _) = run_forked(sc, &t, false);
    if let Some(l) = o.v["log"].as_array() {
        for x in l {
            println!("{}", x.as_str().unwrap_or(""));
        }
    }
    for v in &o.viol {
        println!("violation of {:?} ({}): {}", v.props, v.class, v.msg);
    }
    let prop = j["property"].as_str().unwrap_or("");
    let class = j["class"].as_str().unwrap_or("");
    let exact = o.v["digest"] == j["digest"];
    println!("identical execution: {}", exact);
    if shows(&o, prop, class) {
        println!("VIOLATION property={} replay={}", prop, path.display());
        1
    } else {
        println!("not reproduced");
        0
    }
}

// ---------------------------------------------------------------- check

pub fn check(prop: &str, tier: &str, base: u64) -> i32 {
    let t0 = Instant::now();
    let quick = tier != "thorough";
    let plan: &Plan = match plan::PLANS.iter().find(|p| p.property == prop) {
        Some(p) => p,
        None => {
            eprintln!("no plan for {}", prop);
            return 2;
        }
    };
    let nw = std::env::var("BROSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16)
    });
    let scale: f64 = std::env::var("BROSIM_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let cap_s: u64 = std::env::var("BROSIM_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if quick { 60 } else { 1500 });
    let n_sc = plan.scenarios.len() as u64;
    let jobs: Vec<Job> = plan
        .scenarios
        .iter()
        .enumerate()
        .filter_map(|(i, (name, q, th))| {
            let sc = scenario(name)?;
            let count = ((if quick { *q } else { *th }) as f64 * scale).ceil() as u64;
            Some(Job { sc, base, count, deadline_ms: cap_s * 1000 * (i as u64 + 1) / n_sc })
        })
        .collect();
    rt::map_shared();
    let mut ignored = HashSet::new();
    let agg = loop {
        let agg = explore(jobs.clone(), nw, Some(prop), &ignored);
        let mine: Vec<_> = agg.viols.iter().filter(|v| counts(&v.2, prop) == Some(true)).collect();
        let cond = agg.viols.iter().find(|v| counts(&v.2, prop) == Some(false) && !ignored.contains(&(v.0.clone(), v.3.clone())));
        match cond {
            Some(v) if mine.is_empty() => {
                // does it happen without what this property is about, too?
                rt::set_control(true);
                let j: Vec<Job> = jobs.iter().filter(|j| j.sc.name == v.0).map(|j| Job { count: j.count.min(3000), deadline_ms: 20_000, ..j.clone() }).collect();
                let c = explore(j, nw, None, &ignored);
                rt::set_control(false);
                if !c.viols.iter().any(|x| x.3 == v.3) {
                    break agg;
                }
                eprintln!("note: {} ({}) occurs in control runs too and does not count against {}", v.3, v.0, prop);
                // everything else that fails there, too; and code that is broken anyway shows nothing more
                for x in c.viols.iter().chain(if ignored.is_empty() { &[] } else { &agg.viols[..] }) {
                    ignored.insert((x.0.clone(), x.3.clone()));
                }
                ignored.insert((v.0.clone(), v.3.clone()));
            }
            _ => break agg,
        }
    };
    let explored_s = t0.elapsed().as_secs_f64();
    let mut rc = 0;
    for h in &agg.harness {
        eprintln!("harness error: {}", h);
    }
    // other properties' violations are not this check's business, but worth a note
    let mut noted = BTreeSet::new();
    for (sc, seed, props, class, msg) in &agg.viols {
        if counts(props, prop) != Some(true) && noted.insert((props.clone(), class.clone())) {
            eprintln!("note: run {} {} violates {:?} ({}): {}", sc, seed, props, class, msg);
        }
    }
    let kf = known_findings();
    let mut known_out = vec![];
    let mut extra: Vec<(String, u64, String, String)> = vec![];
    for (id, (n, sc, seed, msg)) in &agg.known {
        match kf.iter().find(|k| &k.id == id) {
            Some(k) if k.property == prop => {
                println!("KNOWN-FINDING: property={} {} {} (shown in {} runs, e.g. {} seed {})", prop, id, k.what, n, sc, seed);
                known_out.push(json!({"id": id, "runs": n, "example": msg}));
            }
            Some(_) => {}
            None => extra.push((sc.clone(), *seed, id.clone(), msg.clone())),
        }
    }
    let mut viols = 0;
    let mine: Vec<_> = agg.viols.iter().filter(|v| match counts(&v.2, prop) {
        Some(true) => true,
        Some(false) => !ignored.contains(&(v.0.clone(), v.3.clone())),
        None => false,
    }).collect();
    let mut replay_path = None;
    if !mine.is_empty() {
        viols = mine.len() as i64;
        let mut seen = BTreeSet::new();
        for v in &mine {
            if !seen.insert((v.0.clone(), v.3.clone())) || seen.len() > 4 {
                continue;
            }
            eprintln!("violation of {} ({}), {} seed {}: {}", prop, v.3, v.0, v.1, v.4);
            if let Some(p) = make_replay(scenario(&v.0).unwrap(), v.1, prop, &v.3, quick) {
                replay_path = Some(p);
                break;
            }
        }
        match &replay_path {
            Some(p) => {
                println!("VIOLATION property={} replay={}", prop, p.display());
                rc = 1;
            }
            None => {
                eprintln!("harness error: the violation did not reproduce");
                rc = 2;
            }
        }
    }
    if rc == 0 && !extra.is_empty() {
        for (sc, seed, id, msg) in &extra {
            eprintln!("unlisted finding {} in {} seed {}: {}", id, sc, seed, msg);
        }
        let (sc, seed, id, msg) = &extra[0];
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let p = dir.join(format!("{}-{}-{}.json", prop, sc, seed));
        let t = Trace { scenario: sc.clone(), seed: *seed, generate: true, ..Default::default() };
        let _ = std::fs::write(&p, serde_json::to_vec_pretty(&json!({
            "property": prop, "variant": variant(), "class": id, "message": msg, "trace": t.to_json()})).unwrap());
        println!("VIOLATION property={} replay={}", prop, p.display());
        viols = 1;
        rc = 1;
    }
    if rc == 0 && !agg.harness.is_empty() {
        rc = 2;
    }
    let wall = t0.elapsed().as_secs_f64();
    let faults: BTreeMap<_, _> = agg.stats.iter().filter(|(k, _)| k.starts_with("fault:")).collect();
    let other: BTreeMap<_, _> = agg.stats.iter().filter(|(k, _)| !k.starts_with("fault:")).collect();
    let mut samples = agg.samples.clone();
    if samples.is_empty() {
        for (s, n) in &agg.per_sc {
            samples.push(json!({"scenario": s, "runs": n, "first_seed": run_seed(base, s, 0)}));
        }
    }
    let ev = json!({
        "property": prop,
        "tier": if quick { "quick" } else { "thorough" },
        "seed": base,
        "level": plan.level,
        "coverage": {
            "evaluations": agg.runs,
            "distinct_nontrivial": agg.nontrivial.len(),
            "rule": plan.rule,
            "samples": samples,
            "variant": variant(),
            "runs_per_scenario": agg.per_sc,
            "runs_per_hour": (agg.runs as f64 / explored_s * 3600.0) as u64,
            "seeds": "one seed per run, so seeds per hour are runs per hour",
            "simulated_seconds": (agg.sim_ns / 1_000_000_000) as u64,
            "history_events": agg.events as u64,
            "faults_injected": faults,
            "probes": other,
            "distinct_histories": agg.digests.len(),
            "distinct_schedules": agg.scheds.len(),
            "distinct_schedules_measure": "64-bit hash over the sequence of (task id polled, number of runnable tasks) of a run",
            "distinct_schedules_over_runs": agg.distinct_over_time,
            "determinism_replays_identical": agg.det_checked,
            "time_capped": agg.capped,
            "real_components": ["all of bromine (/repo/src)", "tokio tasks, channels, locks, timers, io-util", "serde formats", "x25519-dalek, chacha20poly1305, sha2, rand"],
            "stub_components": ["tokio::net sockets (in-process fabric in vendor/tokio/src/sim/net.rs)", "choice of the next task (seeded)", "monotonic and wall clock", "entropy (getrandom)"],
            "known_findings_shown": known_out,
        },
        "assumptions": plan.assumptions,
        "wall_s": wall,
        "violations": viols,
    });
    let evp = std::env::var_os("BROSIM_EVIDENCE").map(PathBuf::from).unwrap_or_else(|| verif_dir().join(format!("evidence/{}.json", prop)));
    let _ = std::fs::create_dir_all(evp.parent().unwrap());
    let ev = if std::env::var_os("BROSIM_MERGE").is_some() {
        // second part of a check: the same property on the other build of the library
        let mut first: Value =
            std::fs::read(&evp).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(json!({"coverage": {}}));
        first["coverage"][format!("{}_build", variant())] = ev["coverage"].clone();
        first["wall_s"] = json!(first["wall_s"].as_f64().unwrap_or(0.0) + wall);
        first["violations"] = json!(viols);
        first
    } else {
        ev
    };
    if let Err(e) = std::fs::write(&evp, serde_json::to_vec_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {}", e);
        if rc == 0 {
            rc = 2;
        }
    }
    println!(
        "{} {}: {} runs, {} distinct histories, {} distinct schedules, {} simulated s, {:.1} s, exit {}",
        prop, tier, agg.runs, agg.digests.len(), agg.scheds.len(), agg.sim_ns / 1_000_000_000, wall, rc
    );
    rc
}

/// Runs one seed verbosely.
pub fn run_one(name: &str, seed: u64, verbose: bool) -> i32 {
    let sc = match scenario(name) {
        Some(s) => s,
        None => {
            eprintln!("no scenario {}", name);
            return 2;
        }
    };
    rt::map_shared();
    let t = Trace { scenario: name.into(), seed, generate: true, verbose, ..Default::default() };
    let (mut o, tr) = run_forked(sc, &t, true);
    if std::env::var_os("BROSIM_AGAIN").is_some() {
        // show the replay instead
        let mut tr = tr.unwrap();
        tr.verbose = verbose;
        o = run_forked(sc, &tr, false).0;
    }
    if let Some(l) = o.v["log"].as_array() {
        for x in l {
            println!("{}", x.as_str().unwrap_or(""));
        }
    }
    println!("stats {}", o.v["stats"]);
    println!("known {}", o.v["known"]);
    println!("digest {} harness {:?}", o.v["digest"], o.harness_err);
    for v in &o.viol {
        println!("violation of {:?} ({}): {}", v.props, v.class, v.msg);
    }
    (!o.viol.is_empty()) as i32
}

/// Development: explore a scenario and print a summary of everything found.
pub fn hunt(name: &str, base: u64, count: u64) -> i32 {
    let sc = match scenario(name) {
        Some(s) => s,
        None => return 2,
    };
    rt::map_shared();
    let t0 = Instant::now();
    let nw = std::env::var("BROSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let agg = explore(vec![Job { sc, base, count, deadline_ms: 3_600_000 }], nw, None, &HashSet::new());
    let mut groups: BTreeMap<(Vec<String>, String), (u64, u64, String)> = BTreeMap::new();
    for (_, seed, props, class, msg) in &agg.viols {
        let n = agg.viol_count.iter().filter(|(k, _)| &k.1 == class && &k.2 == props).map(|x| *x.1).sum();
        groups.entry((props.clone(), class.clone())).or_insert((n, *seed, msg.clone()));
    }
    for ((p, c), (n, seed, msg)) in groups {
        println!("{:5} x {:?} {} e.g. seed {}: {}", n, p, c, seed, msg);
    }
    for (k, v) in &agg.known {
        println!("known {} x{} {} seed {}: {}", k, v.0, v.1, v.2, v.3);
    }
    for h in &agg.harness {
        println!("harness: {}", h);
    }
    for (k, v) in &agg.stats {
        println!("  {:40} {}", k, v);
    }
    println!(
        "{} runs in {:.1} s, {} histories, {} nontrivial, {} schedules, {} sim s, det ok {}",
        agg.runs, t0.elapsed().as_secs_f64(), agg.digests.len(), agg.nontrivial.len(), agg.scheds.len(),
        agg.sim_ns / 1_000_000_000, agg.det_checked
    );
    let _ = first_of;
    0
}

/// Determinism proof: digests of many seeds, for diffing between invocations.
pub fn digests(base: u64, count: u64) -> i32 {
    rt::map_shared();
    for sc in plan::SCENARIOS {
        for i in 0..count {
            let seed = run_seed(base, sc.name, i);
            let t = Trace { scenario: sc.name.into(), seed, generate: true, ..Default::default() };
            let (o, _) = run_forked(sc, &t, false);
            println!("{} {} {} {} {}", sc.name, seed, o.v["digest"], o.v["sched"], o.viol.len());
        }
    }
    0
}
