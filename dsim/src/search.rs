//! The seeded search: many simulated runs on all cores, deterministic in (seed, property, index).
use {
    crate::{die, exec::*, model::*, plan::Planner, report, shrink},
    std::{
        collections::{BTreeMap, BTreeSet},
        panic::{catch_unwind, AssertUnwindSafe},
        sync::{
            atomic::{AtomicU64, Ordering::SeqCst},
            Mutex,
        },
        time::{Duration, Instant},
    },
};

pub const PROPS: [&str; 26] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15",
    "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26",
];

pub struct Known {
    pub property: String,
    pub sig: String,
    pub replay: String,
    pub text: String,
}

/// `finding: property=C19 replay=findings/x.json sig=<signature> | <text>`
pub fn known_findings() -> Vec<Known> {
    let path = format!("{}/KNOWN_FINDINGS.txt", root());
    let Ok(s) = std::fs::read_to_string(path) else { return vec![] };
    s.lines()
        .filter_map(|l| l.strip_prefix("finding: property="))
        .map(|l| {
            let (head, text) = l.split_once(" | ").unwrap_or_else(|| die("malformed KNOWN_FINDINGS.txt"));
            let (pr, sig) = head.split_once(" sig=").unwrap_or_else(|| die("malformed KNOWN_FINDINGS.txt"));
            let (p, r) = pr.split_once(" replay=").unwrap_or_else(|| die("malformed KNOWN_FINDINGS.txt"));
            Known { property: p.into(), sig: sig.into(), replay: r.into(), text: text.into() }
        })
        .collect()
}

pub fn known_sigs() -> &'static BTreeSet<String> {
    static S: std::sync::OnceLock<BTreeSet<String>> = std::sync::OnceLock::new();
    S.get_or_init(|| known_findings().into_iter().map(|k| k.sig).collect())
}

pub fn root() -> String {
    std::env::var("DSIM_ROOT").unwrap_or_else(|_| "/verif".into())
}

pub fn run_seed(base: u64, prop: &str, i: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    fnv(&mut h, prop.as_bytes());
    fnv(&mut h, &base.to_le_bytes());
    fnv(&mut h, &i.to_le_bytes());
    h
}

pub struct Run {
    pub stats: Stats,
    pub shape: u64,
    pub digest: u64,
    pub actions: usize,
    pub found: Option<(Vec<Violation>, Schedule)>,
    /// what other properties' checks would report; the run went on
    pub foreign: Option<(BTreeMap<String, (Vec<&'static str>, u64)>, Schedule)>,
    pub sample: Option<serde_json::Value>,
}

pub fn one_run(base: u64, prop: &str, i: u64, want_sample: bool) -> Run {
    let seed = run_seed(base, prop, i);
    let mut p = Planner::new(seed, prop);
    let genesis = p.sim.l.clone();
    let world = p.sim.world.clone();
    p.sim.bundle_diff = prop == "C20";
    p.sim.focus = prop.to_string();
    let v = p.run();
    let foreign = std::mem::take(&mut p.sim.foreign);
    let past = if foreign.is_empty() { None } else { Some(p.schedule(&genesis, &world, prop, seed, i, &viol(&["C19"], String::new(), String::new()))) };
    let found = if v.is_empty() {
        None
    } else {
        let first = v.iter().find(|x| x.props.contains(&prop)).unwrap_or(&v[0]).clone();
        let s = p.schedule(&genesis, &world, prop, seed, i, &first);
        Some((v, s))
    };
    let sample = want_sample.then(|| sample_of(&p, seed, i));
    Run {
        shape: p.sim.shape,
        digest: p.sim.digest,
        actions: p.actions.len(),
        stats: std::mem::take(&mut p.sim.stats),
        found,
        foreign: past.map(|s| (foreign, s)),
        sample,
    }
}

fn sample_of(p: &Planner, seed: u64, i: u64) -> serde_json::Value {
    let steps: Vec<String> = p
        .actions
        .iter()
        .take(60)
        .map(|a| match a {
            Action::Tx { t, who, ixs, cpi_fault, sysvar_fault, .. } => {
                let ops: Vec<String> = ixs
                    .iter()
                    .map(|x| {
                        let n = x.to();
                        if n.program_id == dlp_id() { op_name(&n.data).to_string() } else { "other".into() }
                    })
                    .collect();
                let mut s = format!("{t}ms {who}: {}", ops.join("+"));
                if let Some(n) = cpi_fault {
                    s += &format!(" [nested call {n} aborts]");
                }
                if let Some(n) = sysvar_fault {
                    s += &format!(" [sysvar read {n} fails]");
                }
                s
            }
            a => serde_json::to_string(a).unwrap(),
        })
        .collect();
    serde_json::json!({"run": i, "seed": seed, "actions": p.actions.len(), "first_actions": steps})
}

pub fn check(prop: &str) -> i32 {
    let Some(prop) = PROPS.iter().find(|p| **p == prop).copied() else { die("unknown property") };
    let t0 = Instant::now();
    let env = |k: &str, d: u64| std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
    let base = env("VERIF_SEED", 1);
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" };
    let thorough = tier == "thorough";
    let runs = env("DSIM_RUNS", if thorough { 1_000_000 } else { 24_000 });
    let cap = Duration::from_secs(env("DSIM_SECS", if thorough { 840 } else { 180 }));
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
    let known = known_findings();

    // listed findings: replay the recorded history first
    let mut known_seen: BTreeMap<String, String> = BTreeMap::new();
    let mut early = None;
    for k in known.iter().filter(|k| k.property == prop) {
        let f = format!("{}/{}", root(), k.replay);
        let s: Schedule = std::fs::read_to_string(&f)
            .ok()
            .and_then(|s| serde_json::from_str(&s).ok())
            .unwrap_or_else(|| die(&format!("cannot read {f}")));
        let o = shrink::execute(&s, false);
        if let Some((_, v)) = &o.at {
            for x in v.iter().filter(|x| x.props.contains(&prop)) {
                if x.sig == k.sig {
                    known_seen.insert(k.sig.clone(), k.text.clone());
                } else if !known.iter().any(|k| k.property == prop && k.sig == x.sig) && early.is_none() {
                    let mut s = s.clone();
                    s.kind = x.kind.clone();
                    s.detail = x.detail.clone();
                    s.property = prop.into();
                    early = Some((v.clone(), s));
                }
            }
        }
    }

    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(if early.is_some() { 0 } else { u64::MAX });
    struct Shared {
        stats: Stats,
        shapes: BTreeSet<u64>,
        nontrivial: BTreeSet<u64>,
        nontrivial_runs: u64,
        done: u64,
        actions: u64,
        found: BTreeMap<u64, (Vec<Violation>, Schedule)>,
        known: BTreeMap<String, u64>,
        foreign: BTreeMap<String, (u64, Schedule)>,
        panics: Vec<String>,
        samples: BTreeMap<u64, serde_json::Value>,
        growth: Vec<(u64, u64)>,
    }
    let sh = Mutex::new(Shared {
        stats: Stats::default(),
        shapes: BTreeSet::new(),
        nontrivial: BTreeSet::new(),
        nontrivial_runs: 0,
        done: 0,
        actions: 0,
        found: BTreeMap::new(),
        known: BTreeMap::new(),
        foreign: BTreeMap::new(),
        panics: vec![],
        samples: BTreeMap::new(),
        growth: vec![],
    });
    let is_known = |x: &Violation| known.iter().any(|k| x.props.contains(&k.property.as_str()) && k.sig == x.sig);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= runs || i > stop_at.load(SeqCst) || t0.elapsed() > cap {
                    break;
                }
                PAST_FOREIGN.with(|p| p.set(false));
                let r = match catch_unwind(AssertUnwindSafe(|| one_run(base, prop, i, i < 3))) {
                    Ok(r) => r,
                    // the simulated participants rely on what another check has found broken
                    Err(_) if PAST_FOREIGN.with(|p| p.get()) => {
                        sh.lock().unwrap().done += 1;
                        continue;
                    }
                    Err(e) => {
                        let m = e
                            .downcast_ref::<String>()
                            .cloned()
                            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                            .unwrap_or_default();
                        let mut s = sh.lock().unwrap();
                        s.panics.push(format!("run {i}: {m}"));
                        if s.panics.len() > 20 {
                            stop_at.store(0, SeqCst);
                        }
                        continue;
                    }
                };
                let mut s = sh.lock().unwrap();
                let judged = r.stats.judged.get(prop).copied().unwrap_or(0);
                s.shapes.insert(r.shape);
                if judged > 0 {
                    s.nontrivial_runs += 1;
                    s.nontrivial.insert(r.shape);
                }
                s.done += 1;
                s.actions += r.actions as u64;
                s.stats.merge(r.stats);
                if s.done.is_power_of_two() {
                    let g = (s.done, s.stats.states.len() as u64);
                    s.growth.push(g);
                }
                if let Some(x) = r.sample {
                    s.samples.insert(i, x);
                }
                if let Some((v, sched)) = r.found {
                    let mine: Vec<Violation> =
                        v.iter().filter(|x| x.props.contains(&prop) && !is_known(x)).cloned().collect();
                    for x in v.iter().filter(|x| is_known(x)) {
                        *s.known.entry(x.sig.clone()).or_insert(0) += 1;
                    }
                    if !mine.is_empty() {
                        stop_at.fetch_min(i, SeqCst);
                        let mut sched = sched;
                        sched.kind = mine[0].kind.clone();
                        sched.detail = mine[0].detail.clone();
                        s.found.insert(i, (mine, sched));
                    }
                }
                if let Some((f, sched)) = r.foreign {
                    for (kind, (props, n)) in f {
                        let e = s.foreign.entry(format!("{} {kind}", props.join(","))).or_insert((0, sched.clone()));
                        e.0 += n;
                    }
                }
            });
        }
    });
    let s = sh.into_inner().unwrap();
    for (sig, _) in &s.known {
        if let Some(k) = known.iter().find(|k| k.property == prop && k.sig == *sig) {
            known_seen.insert(k.sig.clone(), k.text.clone());
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    for (sig, text) in &known_seen {
        say!("KNOWN-FINDING: property={prop} {sig}: {text}");
    }
    let found = early.or_else(|| s.found.into_iter().next().map(|(_, x)| x));
    let violated = found.is_some();
    if let Some((v, sched)) = found {
        let sig = v
            .iter()
            .find(|x| x.props.contains(&prop) && !is_known(x))
            .map(|x| x.sig.clone())
            .unwrap_or_default();
        say!("run {} seed {}: {} :: {}", sched.run, sched.seed, sched.kind, sched.detail);
        let small = shrink::minimise(sched, &sig, Duration::from_secs(40));
        let dir = format!("{}/evidence/replays", root());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}.json");
        std::fs::write(&path, serde_json::to_string_pretty(&small).unwrap()).unwrap_or_else(|e| die(&format!("{path}: {e}")));
        say!("{}", small.note);
        say!("VIOLATION property={prop} replay={path}");
    }
    report::write(report::Report {
        prop,
        tier,
        seed: base,
        runs: s.done,
        actions: s.actions,
        nontrivial: s.nontrivial.len() as u64,
        nontrivial_runs: s.nontrivial_runs,
        shapes: s.shapes.len() as u64,
        stats: &s.stats,
        samples: s.samples.into_values().collect(),
        growth: s.growth,
        known: &s.known,
        foreign: s.foreign.iter().map(|(k, v)| (k.clone(), v.0)).collect(),
        violations: violated as u64,
        wall: t0.elapsed().as_secs_f64(),
        search_s,
        threads,
        capped: s.done < runs && !violated,
    });
    say!(
        "{prop}: {} runs, {} transactions, {} judgements of {prop}, {} distinct shapes, {:.1} s",
        s.done,
        s.stats.txs,
        s.stats.judged.get(prop).copied().unwrap_or(0),
        s.nontrivial.len(),
        t0.elapsed().as_secs_f64()
    );
    for (k, (n, sched)) in &s.foreign {
        say!("note: seen {n} times on the way, reported by another property's check: {k}");
        if std::env::var("DSIM_DUMP_FOREIGN").is_ok() {
            let mut sched = sched.clone();
            let p = k.split([',', ' ']).next().unwrap().to_string();
            sched.property = p.clone();
            let o = shrink::execute(&sched, false);
            if let Some((_, v)) = o.at {
                if let Some(x) = v.iter().find(|x| k.ends_with(&x.kind)) {
                    sched.property = p.clone();
                    let small = shrink::minimise(sched, &x.sig, Duration::from_secs(15));
                    let f = format!("/tmp/foreign-{p}-{}.json", k.replace(|c: char| !c.is_alphanumeric(), "_"));
                    std::fs::write(&f, serde_json::to_string_pretty(&small).unwrap()).unwrap();
                    say!("   {f}: {}", small.detail);
                }
            }
        }
    }
    if !s.panics.is_empty() {
        for p in s.panics.iter().take(5) {
            eprintln!("harness panic in {p}");
        }
        if !violated {
            return 2;
        }
    }
    violated as i32
}

/// The same seed must give the same execution, in another thread and at another time, and the
/// recorded schedule must replay to the same digest.
pub fn selftest() -> i32 {
    let n: u64 = std::env::var("DSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(400);
    let bad = Mutex::new(vec![]);
    let next = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= n {
                    break;
                }
                let prop = PROPS[(i as usize) % PROPS.len()];
                let a = one_run(7, prop, i, false);
                let b = std::thread::scope(|s| s.spawn(|| one_run(7, prop, i, false)).join().unwrap());
                let seed = run_seed(7, prop, i);
                let mut p = Planner::new(seed, prop);
                let genesis = p.sim.l.clone();
                let world = p.sim.world.clone();
                p.sim.bundle_diff = prop == "C20";
                p.sim.focus = prop.to_string();
                let v = p.run();
                let dummy = viol(&["C19"], "none".into(), String::new());
                let s = p.schedule(&genesis, &world, prop, seed, i, v.first().unwrap_or(&dummy));
                let s: Schedule = serde_json::from_str(&serde_json::to_string(&s).unwrap()).unwrap();
                let o = shrink::execute(&s, false);
                if a.digest != b.digest || a.shape != b.shape || o.digest != format!("{:016x}", a.digest) {
                    bad.lock().unwrap().push((prop, i, a.digest, b.digest, o.digest));
                }
            });
        }
    });
    let bad = bad.into_inner().unwrap();
    say!("selftest: {n} runs executed twice and replayed from their files: {} differ", bad.len());
    for b in bad.iter().take(5) {
        say!("  {b:?}");
    }
    (!bad.is_empty()) as i32
}
