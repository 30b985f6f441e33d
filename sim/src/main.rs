//! camsim: deterministic simulation of MLX90640/MLX90641 cameras, buses and hosts around the real
//! mlx9064x driver, with seeded fault injection.

mod camera;
mod drive;
mod ef;
mod exec;
mod gen;
mod model;
mod own;
mod plan;
mod rng;
mod shrink;
mod world;

use exec::{run_plan, RunReport, Viol};
use plan::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// The same scenario without the ingredient a property is about.
fn strip(plan: &Plan) -> Option<Plan> {
    let mut t = plan.clone();
    match plan.prop.as_str() {
        "C07" => t.faults.retain(|f| !matches!(f.k, Fk::Nack | Fk::Partial | Fk::LostAck) && !(f.k == Fk::Dead && f.a == 0)),
        "C11" => {
            t.faults.retain(|f| !matches!(f.k, Fk::Garble | Fk::Flip | Fk::ExtWrite) && !(f.k == Fk::Dead && f.a != 0));
        }
        "C04" => {
            t.ops.retain(|o| !(matches!(o.k, K::Set | K::RegSet) || o.k == K::EnvReset || o.k == K::EnvWrite));
            for c in &mut t.cams {
                c.ctl = c.model.default_control();
            }
        }
        "C13" => t.ops.retain(|o| !matches!(o.k, K::Eps | K::Tr | K::EpsDefault)),
        "C17" => {
            t.faults.retain(|f| !matches!(f.k, Fk::CrashBefore | Fk::CrashAfter));
            let mut first = HashSet::new();
            t.ops.retain(|o| o.k != K::New || first.insert((o.task, o.slot)));
        }
        "C19" => t.ops.iter_mut().filter(|o| o.k == K::OwnCal).for_each(|o| o.k = K::LoadCal),
        "C14" => t.ops.iter_mut().filter(|o| o.k == K::NewFrom).for_each(|o| o.k = K::New),
        "C09" => t.cams.iter_mut().for_each(|c| c.flips.clear()),
        "C12" => {
            if !plan.note.starts_with("clone") {
                return None;
            }
            t.ops.retain(|o| o.k != K::Clone && o.slot == 0);
        }
        _ => return None,
    }
    (t != *plan).then_some(t)
}

fn solo(plan: &Plan, task: usize, slot: usize) -> Plan {
    let mut t = plan.clone();
    t.ops.retain(|o| o.task == task && o.slot == slot);
    let ids: HashSet<u32> = t.ops.iter().map(|o| o.id).collect();
    t.faults.retain(|f| ids.contains(&f.op));
    t.sched = vec![task as u8];
    t.preempt = 0;
    t
}

struct Verdict {
    rep: RunReport,
    /// Violations of the plan's property.
    viols: Vec<Viol>,
    extra_runs: u64,
}

fn evaluate(plan: &Plan, trace: bool) -> Verdict {
    let rep = run_plan(plan, trace);
    let prop = plan.prop.as_str();
    let (mut viols, mut others) = (vec![], vec![]);
    for v in &rep.viols {
        if v.tags.iter().any(|t| *t == prop) {
            viols.push(v.clone());
        } else if v.known.is_none() {
            others.push(v.clone());
        }
    }
    let mut extra_runs = 0;
    let mut drivers: Vec<(usize, usize)> = plan.ops.iter().map(|o| (o.task, o.slot)).collect();
    drivers.sort_unstable();
    drivers.dedup();
    if prop == "C12" && drivers.len() > 1 && !plan.note.starts_with("clone") {
        for (t, s) in drivers {
            let alone = run_plan(&solo(plan, t, s), false);
            extra_runs += 1;
            let a: Vec<_> = alone.digests.into_iter().flatten().collect();
            let ids: HashSet<u32> = plan.ops.iter().filter(|o| (o.task, o.slot) == (t, s)).map(|o| o.id).collect();
            let b: Vec<_> = rep.digests[t].iter().filter(|d| ids.contains(&d.0)).cloned().collect();
            if let Some(((op, _, got), (_, _, want))) = b.iter().zip(&a).find(|(x, y)| x != y) {
                viols.push(Viol {
                    tags: vec!["C12"],
                    class: "not alone",
                    op: *op,
                    detail: format!("driver {t}.{s}: operation {op} gives {got} together with the others and {want} alone (or differs in images or bus traffic)"),
                    known: None,
                });
            } else if a.len() != b.len() {
                viols.push(Viol { tags: vec!["C12"], class: "not alone", op: 0, detail: format!("driver {t}.{s} made {} calls together, {} alone", b.len(), a.len()), known: None });
            }
        }
    }
    if !others.is_empty() {
        if let Some(t) = strip(plan) {
            let twin = run_plan(&t, false);
            extra_runs += 1;
            let had: HashSet<&str> = twin.viols.iter().filter(|v| v.known.is_none()).map(|v| v.class).collect();
            for mut v in others {
                if !had.contains(v.class) {
                    v.detail = format!("{} (does not happen without the {})", v.detail, ingredient(prop));
                    viols.push(v);
                }
            }
        }
    }
    Verdict { rep, viols, extra_runs }
}

fn ingredient(prop: &str) -> &'static str {
    match prop {
        "C07" => "failed transactions",
        "C11" => "garbage",
        "C04" => "settings changes",
        "C13" => "emissivity and reflected temperature changes",
        "C17" => "crash",
        "C19" => "application's own calibration",
        "C14" => "calibration loaded earlier",
        "C09" => "flipped bits",
        _ => "clone",
    }
}

fn first_new(viols: &[Viol], listed: &HashSet<String>) -> Option<Viol> {
    viols.iter().find(|v| v.known.is_none_or(|k| !listed.contains(k))).cloned()
}

fn same_class(plan: &Plan, class: &str, listed: &HashSet<String>) -> bool {
    evaluate(plan, false).viols.iter().any(|v| v.class == class && v.known.is_none_or(|k| !listed.contains(k)))
}

// ------------------------------------------------------------------ known findings

/// Lines `known: property=<id> signature=<sig> plan=<file> <what fails>`.
struct Known {
    sig: String,
    plan: String,
    what: String,
}

fn known_findings(path: &str, prop: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(path).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: ")?;
            let mut w = l.splitn(4, ' ');
            let p = w.next()?.strip_prefix("property=")?;
            let sig = w.next()?.strip_prefix("signature=")?.to_string();
            let plan = w.next()?.strip_prefix("plan=")?.to_string();
            (p == prop).then(|| Known { sig, plan, what: w.next().unwrap_or("").to_string() })
        })
        .collect()
}

// ------------------------------------------------------------------ evidence

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

// ------------------------------------------------------------------ check

#[derive(Default)]
struct Tally {
    runs: u64,
    nontrivial: u64,
    shapes: HashSet<u64>,
    probes: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    txns: u64,
    words: u64,
    publishes: u64,
    switches: u64,
    sim_ns: u64,
    ops: u64,
    extra: u64,
    rechecked: u64,
    nondet: Vec<u64>,
    known_hits: BTreeMap<String, u64>,
    fails: Vec<(u64, String, String)>,
}

impl Tally {
    fn fields(&mut self) -> [(&'static str, &mut u64); 10] {
        [
            ("runs", &mut self.runs),
            ("nontrivial", &mut self.nontrivial),
            ("txns", &mut self.txns),
            ("words", &mut self.words),
            ("publishes", &mut self.publishes),
            ("switches", &mut self.switches),
            ("sim_ns", &mut self.sim_ns),
            ("ops", &mut self.ops),
            ("extra", &mut self.extra),
            ("rechecked", &mut self.rechecked),
        ]
    }
    fn counters(&mut self) -> Vec<(&'static str, u64)> {
        self.fields().into_iter().map(|(k, v)| (k, *v)).collect()
    }
    fn count(&mut self, k: &str, n: u64) {
        for (f, v) in self.fields() {
            if f == k {
                *v += n;
            }
        }
    }
}

/// What must have happened in a run for it to count as saying something about the property.
fn relevant(prop: &str) -> &'static [&'static str] {
    match prop {
        "C01" | "C04" | "C13" | "C17" => &["image with compared pixels", "getter answered"],
        "C02" => &["image with compared pixels", "failed image left the buffer alone", "not ready"],
        "C03" => &["image with compared pixels", "interrupted delivery", "not ready"],
        "C05" => &["setter succeeded", "setter failed", "getter answered"],
        "C06" => &["setter succeeded", "image with compared pixels", "calibration loaded"],
        "C07" => &["call with a failed transaction"],
        "C08" => &["synchronised", "call with a failed transaction"],
        "C09" | "C10" => &["calibration loaded", "checksum error reported", "invalid data reported", "short dump refused"],
        "C11" => &["image with compared pixels", "checksum error reported", "invalid data reported", "not ready", "getter answered"],
        "C12" => &["image with compared pixels", "cloned"],
        "C14" => &["paths compared"],
        "C19" => &["image by an own calibration"],
        "C20" => &["equal register values", "different register values", "register value written"],
        "C15" => &["scene temperature checked"],
        _ => &["complete image"],
    }
}

struct Args {
    tier: String,
    seed: u64,
    runs: u64,
    evidence: Option<String>,
    replays: String,
    known: String,
    root: String,
    label: String,
    workers: usize,
}

/// Runs per worker process. Every chunk starts in a fresh process, so results do not depend on the
/// number of processors.
const CHUNKS: u64 = 64;

fn chunk(runs: u64) -> u64 {
    runs.div_ceil(CHUNKS).max(16)
}

fn clean(s: &str) -> String {
    s.replace(['\n', '\t'], " ")
}

/// Worker process: runs `lo..hi` and prints what was found.
fn work(prop: &str, seed: u64, lo: u64, hi: u64, known: &str) -> i32 {
    let listed: HashSet<String> = known_findings(known, prop).into_iter().map(|k| k.sig).collect();
    let current = Arc::new(Mutex::new(None::<(Instant, u64)>));
    {
        // Watchdog: a call that never returns without using the bus.
        let current = current.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            if let Some((s, i)) = *current.lock().unwrap() {
                if s.elapsed() > Duration::from_secs(60) {
                    println!("hang\t{i}");
                    let _ = std::io::stdout().flush();
                    std::process::exit(0);
                }
            }
        });
    }
    let mut t = Tally::default();
    for i in lo..hi {
        *current.lock().unwrap() = Some((Instant::now(), i));
        one(prop, seed, i, &listed, &mut t);
        *current.lock().unwrap() = None;
        if !t.fails.is_empty() {
            break;
        }
    }
    let mut o = String::new();
    for (k, v) in t.counters() {
        o.push_str(&format!("count\t{k}\t{v}\n"));
    }
    for (k, v) in &t.probes {
        o.push_str(&format!("probe\t{k}\t{v}\n"));
    }
    for (k, v) in &t.faults {
        o.push_str(&format!("fault\t{k}\t{v}\n"));
    }
    for (k, v) in &t.known_hits {
        o.push_str(&format!("known\t{k}\t{v}\n"));
    }
    for s in &t.shapes {
        o.push_str(&format!("shape\t{s:x}\n"));
    }
    for i in &t.nondet {
        o.push_str(&format!("nondet\t{i}\n"));
    }
    for (i, class, detail) in &t.fails {
        o.push_str(&format!("fail\t{i}\t{class}\t{}\n", clean(detail)));
    }
    print!("{o}done\n");
    0
}

fn absorb(g: &mut Tally, text: &str) -> bool {
    let mut done = false;
    for l in text.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        let num = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        match f[0] {
            "count" => g.count(f[1], num(2)),
            "probe" => *g.probes.entry(f[1].into()).or_insert(0) += num(2),
            "fault" => *g.faults.entry(f[1].into()).or_insert(0) += num(2),
            "known" => *g.known_hits.entry(f[1].into()).or_insert(0) += num(2),
            "shape" => {
                g.shapes.insert(u64::from_str_radix(f[1], 16).unwrap_or(0));
            }
            "nondet" => g.nondet.push(num(1)),
            "fail" => g.fails.push((num(1), f[2].into(), f.get(3).unwrap_or(&"").to_string())),
            "hang" => {
                g.fails.push((num(1), "hang".into(), "a call of this run never returned".into()));
                done = true;
            }
            "done" => done = true,
            _ => {}
        }
    }
    done
}

/// Runs a worker process; says how it died if it did.
fn worker(prop: &str, a: &Args, lo: u64, hi: u64, t: &mut Tally) -> Result<Option<String>, String> {
    let o = me()
        .args(["work", prop, "--seed", &a.seed.to_string(), "--lo", &lo.to_string(), "--hi", &hi.to_string(), "--known", &a.known])
        .output()
        .map_err(|e| e.to_string())?;
    let alive = absorb(t, &String::from_utf8_lossy(&o.stdout));
    Ok((!alive).then(|| format!("{}: {}", o.status, clean(&String::from_utf8_lossy(&o.stderr)))))
}

/// The first run that takes its process with it (stack overflow, abort), twice in a row.
fn dying_run(prop: &str, a: &Args, lo: u64, hi: u64) -> Option<u64> {
    let dies = |lo, hi| matches!(worker(prop, a, lo, hi, &mut Tally::default()), Ok(Some(_)));
    let (mut x, mut y) = (lo, hi);
    while y - x > 1 {
        let m = x + (y - x) / 2;
        if dies(x, m) {
            y = m;
        } else {
            x = m;
        }
    }
    (dies(x, y) && dies(x, y)).then_some(x)
}

fn me() -> std::process::Command {
    std::process::Command::new(std::env::current_exe().unwrap_or_else(|_| "camsim".into()))
}

/// What a process says about the plan in a file; `None` if it dies or does not come to its end.
fn eval_child(path: &str, known: &str) -> Option<String> {
    use std::io::Read;
    let mut c = me()
        .args(["eval", path, "--known", known])
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .ok()?;
    let mut out = c.stdout.take()?;
    let reader = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = out.read_to_string(&mut s);
        s
    });
    let start = Instant::now();
    let ended = loop {
        match c.try_wait() {
            Ok(Some(s)) => break s.code().is_some(),
            _ if start.elapsed() > Duration::from_secs(60) => {
                let _ = c.kill();
                let _ = c.wait();
                break false;
            }
            _ => std::thread::sleep(Duration::from_millis(1)),
        }
    };
    let text = reader.join().ok()?;
    ended.then_some(text)
}

/// Evaluates a plan in a process of its own: execution hash and violated classes.
fn fresh(plan: &Plan, dir: &str, known: &str) -> Option<(String, Vec<String>)> {
    let path = format!("{dir}/.try-{}.plan", std::process::id());
    let _ = std::fs::create_dir_all(dir);
    std::fs::write(&path, plan.to_text()).ok()?;
    let text = eval_child(&path, known);
    let _ = std::fs::remove_file(&path);
    let text = text?;
    let all = |k: &str| text.lines().filter_map(|l| l.strip_prefix(k)).map(str::to_string).collect::<Vec<_>>();
    Some((all("hash ").pop()?, all("class ")))
}

fn run_prelude(p: &Plan) {
    let w: Vec<&str> = p.note.split_whitespace().collect();
    if let ["prelude", prop, seed, lo, hi] | [_, "prelude", prop, seed, lo, hi] = w[..] {
        let (seed, lo, hi) = (seed.parse().unwrap_or(0), lo.parse().unwrap_or(0u64), hi.parse().unwrap_or(0u64));
        for i in lo..hi {
            one(prop, seed, i, &HashSet::new(), &mut Tally::default());
        }
    }
}

fn eval_file(path: &str, known: &str) -> i32 {
    let Ok(plan) = std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|t| Plan::parse(&t)) else { return 2 };
    let listed: HashSet<String> = known_findings(known, &plan.prop).into_iter().map(|k| k.sig).collect();
    run_prelude(&plan);
    let v = evaluate(&plan, false);
    println!("hash {:016x}", v.rep.hash);
    for x in v.viols.iter().filter(|x| x.known.is_none_or(|k| !listed.contains(k))) {
        println!("class {}", x.class);
    }
    for k in v.viols.iter().filter_map(|x| x.known) {
        println!("known {k}");
    }
    0
}

fn check(prop: &str, a: &Args) -> i32 {
    let t0 = Instant::now();
    let known = known_findings(&a.known, prop);
    let listed: HashSet<String> = known.iter().map(|k| k.sig.clone()).collect();
    // Each listed finding, reproduced from its own history.
    let mut died = None;
    for k in &known {
        let path = format!("{}/{}", a.root, k.plan);
        match std::fs::read_to_string(&path).map_err(|e| e.to_string()).and_then(|t| Plan::parse(&t)) {
            Ok(mut p) => {
                p.prop = prop.to_string();
                let copy = format!("{}/.known-{}.plan", a.replays, std::process::id());
                let _ = std::fs::create_dir_all(&a.replays);
                if let Err(e) = std::fs::write(&copy, p.to_text()) {
                    eprintln!("camsim: {copy}: {e}");
                    return 2;
                }
                match eval_child(&copy, &a.known) {
                    Some(t) if t.lines().any(|l| l.strip_prefix("known ") == Some(k.sig.as_str())) => {
                        println!("KNOWN-FINDING: property={prop} {} ({})", k.what, k.sig);
                    }
                    Some(_) => println!("note: known finding {} of {prop} no longer occurs", k.sig),
                    None => died = Some(p),
                }
                let _ = std::fs::remove_file(&copy);
            }
            Err(e) => {
                eprintln!("camsim: {}: {e}", k.plan);
                return 2;
            }
        }
    }
    let size = chunk(a.runs);
    let next = AtomicU64::new(0);
    // Chunks above this one are not needed any more.
    let limit = AtomicU64::new(u64::MAX);
    let total = Mutex::new(Tally::default());
    let broken = Mutex::new(None::<String>);
    std::thread::scope(|sc| {
        for _ in 0..a.workers {
            sc.spawn(|| loop {
                let c = next.fetch_add(1, Ordering::SeqCst);
                let (lo, hi) = (c * size, ((c + 1) * size).min(a.runs));
                if lo >= a.runs || c > limit.load(Ordering::SeqCst) {
                    return;
                }
                // On a slow machine fewer runs have to do.
                if a.tier == "quick" && t0.elapsed() > Duration::from_secs(480) {
                    return;
                }
                let mut t = Tally::default();
                match worker(prop, a, lo, hi, &mut t) {
                    Ok(None) => {}
                    Ok(Some(how)) => match dying_run(prop, a, lo, hi) {
                        Some(i) => t.fails.push((i, DEATH.into(), format!("the process dies during a call: {how}"))),
                        None => *broken.lock().unwrap() = Some(format!("worker for runs {lo}..{hi} ended with {how}")),
                    },
                    Err(e) => *broken.lock().unwrap() = Some(e),
                }
                if !t.fails.is_empty() {
                    limit.fetch_min(c, Ordering::SeqCst);
                }
                merge(&mut total.lock().unwrap(), t);
            });
        }
    });
    if let Some(b) = broken.into_inner().unwrap() {
        eprintln!("camsim: {prop}: {b}");
        return 2;
    }
    let mut t = total.into_inner().unwrap();
    t.fails.sort();
    t.nondet.sort_unstable();
    let search_s = t0.elapsed().as_secs_f64();
    let plan_of = |i: u64| gen::generate(prop, gen::run_seed(a.seed, prop, i));
    // A run that does not repeat in the same process depends either on chance (the simulator is
    // broken) or on drivers that lived earlier in the process (the code under test is).
    if let (Some(&i), true) = (t.nondet.first(), t.fails.is_empty()) {
        let p = plan_of(i);
        let (x, y) = (fresh(&p, &a.replays, &a.known), fresh(&p, &a.replays, &a.known));
        if x.is_none() || x != y {
            eprintln!("camsim: {prop}: run {i} is not repeatable");
            return 2;
        }
        if prop == "C12" {
            t.fails.push((i, LEAK.into(), "the same calls behave differently when other drivers lived in the process before".into()));
        } else {
            println!("note: runs depend on what earlier drivers in the process did (see C12)");
        }
    }
    let mut code = 0;
    let mut reported = 0;
    if let (Some(p), true) = (&died, t.fails.is_empty()) {
        code = 1;
        reported = 1;
        println!("{prop}: the history of a known finding now ends the process");
        let path = write_replay(&a.replays, prop, p, DEATH, "a call does not return or the process dies", 0);
        println!("VIOLATION property={prop} replay={path}");
    }
    if let Some((i, class, detail)) = t.fails.first().cloned() {
        code = 1;
        reported = t.fails.len();
        let plan = plan_of(i);
        println!("{prop}: run {i} (seed {}) breaks the property: {class}", plan.seed);
        let path = report(prop, a, &listed, &plan, i, &class, &detail, i / size * size);
        println!("VIOLATION property={prop} replay={path}");
    }
    if let Some(path) = &a.evidence {
        write_evidence(path, prop, a, &t, t0.elapsed().as_secs_f64(), search_s, reported);
    }
    println!(
        "{prop}: {} runs, {} non-trivial and distinct, {} bus transactions, {:.1} simulated hours, {:.1} s{}",
        t.runs,
        t.shapes.len(),
        t.txns,
        t.sim_ns as f64 / 3.6e12,
        t0.elapsed().as_secs_f64(),
        if code == 0 { ", no violation" } else { "" }
    );
    code
}

/// Violation class of a call that ends the process.
const DEATH: &str = "process died";

/// Violation class of state that leaks from one run to the next.
const LEAK: &str = "state outlives drivers";

/// Minimises a failing run and writes its replay file.
#[allow(clippy::too_many_arguments)]
fn report(prop: &str, a: &Args, listed: &HashSet<String>, plan: &Plan, i: u64, class: &str, detail: &str, first: u64) -> String {
    if class == DEATH {
        let deadline = Instant::now() + Duration::from_secs(60);
        let small = shrink::shrink(plan, &mut |p| Instant::now() < deadline && fresh(p, &a.replays, &a.known).is_none(), 3000);
        println!("  {detail}");
        println!("  minimised from {} operations and {} faults to {} and {}", plan.ops.len(), plan.faults.len(), small.ops.len(), small.faults.len());
        return write_replay(&a.replays, prop, &small, class, detail, 0);
    }
    if class == "hang" {
        return write_replay(&a.replays, prop, plan, class, detail, 0);
    }
    let has = |p: &Plan| fresh(p, &a.replays, &a.known).is_some_and(|(_, c)| c.iter().any(|c| c == class));
    if class == LEAK || !has(plan) {
        // Needs what ran before it in the same process.
        let mut p = plan.clone();
        let mut lo = first;
        let with = |lo: u64, hi: u64| {
            let mut p = plan.clone();
            p.note = format!("{} prelude {prop} {} {lo} {hi}", plan.note, a.seed).trim().to_string();
            p
        };
        if class == LEAK {
            lo = i;
            p = with(i, i + 1);
        } else {
            let mut step = 1;
            while i >= step && i - step >= first {
                if has(&with(i - step, i)) {
                    lo = i - step;
                    break;
                }
                step *= 2;
            }
            p.note = with(lo, i).note;
        }
        println!("  {detail}");
        println!("  depends on runs {lo}..{i} earlier in the same process");
        return write_replay(&a.replays, prop, &p, class, detail, 0);
    }
    let deadline = Instant::now() + Duration::from_secs(60);
    let mut small = shrink::shrink(plan, &mut |p| Instant::now() < deadline && same_class(p, class, listed), 3000);
    if !has(&small) {
        let deadline = Instant::now() + Duration::from_secs(60);
        small = shrink::shrink(plan, &mut |p| Instant::now() < deadline && has(p), 3000);
    }
    let ver = evaluate(&small, false);
    let d = ver.viols.iter().find(|x| x.class == class).map_or(detail.to_string(), |v| v.detail.clone());
    println!("  {d}");
    println!("  minimised from {} operations and {} faults to {} and {}", plan.ops.len(), plan.faults.len(), small.ops.len(), small.faults.len());
    let hash = fresh(&small, &a.replays, &a.known).map_or(0, |(h, _)| u64::from_str_radix(&h, 16).unwrap_or(0));
    write_replay(&a.replays, prop, &small, class, &d, hash)
}

fn one(prop: &str, seed: u64, i: u64, listed: &HashSet<String>, t: &mut Tally) {
    let plan = gen::generate(prop, gen::run_seed(seed, prop, i));
    let ver = evaluate(&plan, false);
    t.runs += 1;
    t.extra += ver.extra_runs;
    t.ops += plan.ops.len() as u64;
    let r = &ver.rep;
    t.txns += r.stats.txns;
    t.words += r.stats.words;
    t.publishes += r.stats.publishes;
    t.switches += r.stats.switches;
    t.sim_ns += r.sim_ns;
    for (k, n) in &r.stats.fired {
        *t.faults.entry(k.txt().into()).or_insert(0) += n;
    }
    for (k, n) in &r.probes {
        *t.probes.entry((*k).into()).or_insert(0) += n;
    }
    if relevant(prop).iter().any(|p| r.probes.contains_key(p)) {
        t.nontrivial += 1;
        t.shapes.insert(r.shape);
    }
    for v in &ver.viols {
        if let Some(k) = v.known {
            *t.known_hits.entry(k.into()).or_insert(0) += 1;
        }
    }
    let bad = first_new(&ver.viols, listed);
    if i % 64 == 0 || bad.is_some() {
        t.rechecked += 1;
        let again = run_plan(&plan, false);
        if again.hash != r.hash || again.viols.len() != r.viols.len() {
            t.nondet.push(i);
        }
    }
    if let Some(v) = bad {
        t.fails.push((i, v.class.to_string(), v.detail));
    }
}

fn merge(g: &mut Tally, mut t: Tally) {
    for (k, v) in t.counters() {
        g.count(k, v);
    }
    g.shapes.extend(t.shapes);
    for (k, v) in t.probes {
        *g.probes.entry(k).or_insert(0) += v;
    }
    for (k, v) in t.faults {
        *g.faults.entry(k).or_insert(0) += v;
    }
    for (k, v) in t.known_hits {
        *g.known_hits.entry(k).or_insert(0) += v;
    }
    g.nondet.extend(t.nondet);
    g.fails.extend(t.fails);
}

fn write_replay(dir: &str, prop: &str, plan: &Plan, class: &str, detail: &str, hash: u64) -> String {
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{dir}/{prop}-{:016x}.plan", plan.seed);
    let mut p = plan.clone();
    p.prop = prop.into();
    let mut s = p.to_text();
    s.push_str(&format!("violation {class}\ndetail {}\nreplay-hash {hash:016x}\n", detail.replace('\n', " ")));
    if let Err(e) = std::fs::write(&path, s) {
        eprintln!("camsim: {path}: {e}");
    }
    path
}

fn write_evidence(path: &str, prop: &str, a: &Args, t: &Tally, wall: f64, search: f64, reported: usize) {
    let map = |m: &BTreeMap<String, u64>| -> String {
        let v: Vec<String> = m.iter().map(|(k, n)| format!("\"{}\": {n}", esc(k))).collect();
        format!("{{{}}}", v.join(", "))
    };
    let samples: Vec<String> = (0..2u64)
        .map(|i| {
            let p = gen::generate(prop, gen::run_seed(a.seed, prop, i));
            format!("\"{}\"", esc(&p.to_text()))
        })
        .collect();
    let all_kinds: Vec<String> = Fk::ALL
        .iter()
        .map(|k| format!("\"{}\": {}", k.txt(), t.faults.get(k.txt()).copied().unwrap_or(0)))
        .collect();
    let s = format!(
        "{{\n \"property\": \"{prop}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \
         \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": \"one evaluation is one simulated run of a scenario generated from seed mix(VERIF_SEED, property, index); it is non-trivial when at least one of these was judged in it: {}; two runs are distinct when their sequences of calls, outcomes, bus transactions, faults, publishes and task switches (without data words) differ\",\n  \
         \"nontrivial_runs\": {},\n  \"build\": \"{}\",\n  \"simulated_calls\": {},\n  \"bus_transactions\": {},\n  \"bus_words\": {},\n  \"frames_published\": {},\n  \"task_switches\": {},\n  \"simulated_seconds\": {:.3},\n  \"runs_per_hour_one_seed_each\": {:.0},\n  \"comparison_runs\": {},\n  \"reexecuted_for_determinism\": {},\n  \"nondeterministic\": {},\n  \
         \"faults_injected\": {{{}}},\n  \"judged\": {},\n  \"known_finding_occurrences\": {},\n  \
         \"real_components\": [\"mlx9064x crate built from /repo (drivers, registers, EEPROM decoding, Hamming code, calculations)\"],\n  \
         \"stub_components\": [\"I2C bus\", \"MLX90640/MLX90641 cameras (EEPROM, RAM, registers, measurement clock)\", \"application and time\"],\n  \
         \"samples\": [{}]\n }},\n \"assumptions\": [\"the simulated cameras follow the datasheets' register and memory semantics\", \"reference values carry a single-precision error bound; values for which single precision is meaningless are not compared\"],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        a.tier, a.seed, t.runs, t.shapes.len(), relevant(prop).join(", "), t.nontrivial, esc(&a.label), t.ops, t.txns, t.words, t.publishes, t.switches,
        t.sim_ns as f64 / 1e9,
        t.runs as f64 / search.max(1e-9) * 3600.0,
        t.extra, t.rechecked, t.nondet.len(),
        all_kinds.join(", "), map(&t.probes), map(&t.known_hits),
        samples.join(", "), wall, reported
    );
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if let Err(e) = std::fs::write(path, s) {
        eprintln!("camsim: {path}: {e}");
    }
}

fn replay(path: &str, trace: bool, known: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let plan = match Plan::parse(&text) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let field = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).map(str::trim).map(str::to_string);
    let want = field("violation ");
    let hash = field("replay-hash ");
    let listed: HashSet<String> = known_findings(known, &plan.prop).into_iter().map(|k| k.sig).collect();
    if matches!(want.as_deref(), Some("hang" | DEATH)) {
        return match ends(path, known) {
            None => {
                println!("VIOLATION property={} replay={path}", plan.prop);
                1
            }
            Some(()) => {
                println!("the calls of this run return now");
                0
            }
        };
    }
    run_prelude(&plan);
    let v = evaluate(&plan, trace);
    let leak = want.as_deref() == Some(LEAK) && fresh_hash_differs(path, &v.rep.hash, known);
    for l in &v.rep.trace {
        println!("{l}");
    }
    for x in &v.rep.viols {
        println!("  [{}] op {} {}: {} {}", x.tags.join(","), x.op, x.class, x.detail, x.known.map_or(String::new(), |k| format!("(known finding {k})")));
    }
    let new: Vec<&Viol> = v.viols.iter().filter(|x| x.known.is_none_or(|k| !listed.contains(k))).collect();
    println!("execution hash {:016x}", v.rep.hash);
    if let Some(h) = hash {
        println!("recorded hash  {h} ({})", if h == format!("{:016x}", v.rep.hash) { "same execution" } else { "the code behaves differently now" });
    }
    if leak {
        println!("behaves differently after other drivers lived in the process");
        println!("VIOLATION property={} replay={path}", plan.prop);
        return 1;
    }
    match new.first() {
        Some(x) => {
            println!("{}", x.detail);
            println!("VIOLATION property={} replay={path}", plan.prop);
            if let Some(w) = want {
                if !new.iter().any(|x| x.class == w) {
                    println!("(recorded as: {w})");
                }
            }
            1
        }
        None => {
            println!("property {} holds in this run", plan.prop);
            0
        }
    }
}

/// Does a process that runs this plan come to its end?
fn ends(path: &str, known: &str) -> Option<()> {
    let mut c = me().args(["eval", path, "--known", known]).stdout(std::process::Stdio::null()).spawn().ok()?;
    let start = Instant::now();
    while start.elapsed() < Duration::from_secs(60) {
        match c.try_wait() {
            Ok(Some(s)) => {
                println!("process ended with {s}");
                return s.code().map(|_| ());
            }
            _ => std::thread::sleep(Duration::from_millis(20)),
        }
    }
    let _ = c.kill();
    let _ = c.wait();
    println!("still running after 60 s");
    None
}

/// Does the plan of this file behave differently in a process in which nothing ran before?
fn fresh_hash_differs(path: &str, hash: &u64, known: &str) -> bool {
    let Ok(mut p) = std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|t| Plan::parse(&t)) else { return false };
    p.note.clear();
    let dir = std::env::temp_dir().display().to_string();
    fresh(&p, &dir, known).is_some_and(|(h, _)| h != format!("{hash:016x}"))
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("CAMSIM_PANICS").is_some() {
            eprintln!("{i}");
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|p| args.get(p + 1)).cloned();
    let num = |k: &str, d: u64| opt(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    let root = opt("--root").unwrap_or_else(|| ".".into());
    let known = opt("--known").unwrap_or_else(|| format!("{root}/known_findings.txt"));
    let code = match args.get(1).map(String::as_str) {
        Some("check") if args.len() > 2 => {
            let prop = args[2].clone();
            if !gen::PROPS.contains(&prop.as_str()) {
                eprintln!("no such property: {prop}");
                std::process::exit(2);
            }
            let a = Args {
                tier: opt("--tier").unwrap_or_else(|| "quick".into()),
                seed: num("--seed", 1),
                runs: num("--runs", 2000),
                evidence: opt("--evidence"),
                replays: opt("--replays").unwrap_or_else(|| "/tmp/camsim-replays".into()),
                known,
                root,
                label: opt("--label").unwrap_or_default(),
                workers: num("--workers", std::thread::available_parallelism().map_or(4, |n| n.get() as u64)) as usize,
            };
            check(&prop, &a)
        }
        Some("work") if args.len() > 2 => work(&args[2], num("--seed", 1), num("--lo", 0), num("--hi", 0), &known),
        Some("eval") if args.len() > 2 => eval_file(&args[2], &known),
        Some("replay") if args.len() > 2 => replay(&args[2], args.iter().any(|a| a == "--trace"), &known),
        Some("gen") if args.len() > 3 => {
            let i: u64 = args[3].parse().unwrap_or(0);
            print!("{}", gen::generate(&args[2], gen::run_seed(num("--seed", 1), &args[2], i)).to_text());
            0
        }
        _ => {
            eprintln!("usage: camsim check <property> [--tier t] [--seed n] [--runs n] [--evidence f] [--replays d] [--root d]");
            eprintln!("       camsim replay <file> [--trace]");
            eprintln!("       camsim gen <property> <index> [--seed n]");
            2
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
