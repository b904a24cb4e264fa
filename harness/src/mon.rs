//! Monitor framework.
//!
//! A check is a list of *classes*; a class is a closure that drives the real code
//! through many *cases* and judges each one with an oracle.  The parent process
//! (supervisor) runs the classes in a child process, so that a crash of the code
//! under test (stack overflow, abort, endless loop) is itself an observed verdict
//! and not the end of the check.
use rand_chacha::ChaCha20Rng;
use rand_core::{RngCore, SeedableRng};
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Fail {
    /// sub-signature inside the class; "" for the class itself
    pub tag: String,
    pub detail: String,
}
impl From<String> for Fail {
    fn from(detail: String) -> Fail {
        Fail { tag: String::new(), detail }
    }
}
impl From<&str> for Fail {
    fn from(d: &str) -> Fail {
        d.to_string().into()
    }
}
pub type R = Result<(), Fail>;
pub fn fail<T>(tag: &str, detail: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { tag: tag.into(), detail: detail.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::mon::Fail::from(format!($($a)*))); } };
}
#[macro_export]
macro_rules! eqv {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err($crate::mon::Fail::from(format!("{}: got {:?}, want {:?}", format!($($m)*), a, b))); }
    }};
}

pub struct Cx {
    pub name: String,
    pub tier: Tier,
    pub rng: ChaCha20Rng,
    pub seed: u64,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub fails: Vec<Fail>,
    slot: Arc<Slot>,
}
impl Cx {
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let n = match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        };
        // a monitor that runs another one (P34) may ask for a fraction of its cases
        let s = std::env::var("KMON_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
        (n / s).max(n.min(1))
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn count(&mut self, k: &str, by: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += by;
    }
    /// Give up early once a class has collected enough failures.
    pub fn full(&self) -> bool {
        self.fails.len() >= 4
    }
    /// Judge one execution.  `key` identifies the case (for the distinct count),
    /// `nontrivial` says whether it counts under the property's rule.
    pub fn case<K: Hash>(&mut self, key: K, nontrivial: bool, f: impl FnOnce() -> R) -> bool {
        self.evals += 1;
        if nontrivial {
            let mut h = DefaultHasher::new();
            self.name.hash(&mut h);
            key.hash(&mut h);
            self.distinct.insert(h.finish());
        }
        self.slot.case_start();
        let r = catch_unwind(AssertUnwindSafe(f));
        self.slot.case_end();
        let fail = match r {
            Ok(Ok(())) => return true,
            Ok(Err(e)) => e,
            Err(p) => Fail { tag: "panic".into(), detail: format!("panicked: {}", panic_msg(&p)) },
        };
        if self.fails.len() < 16 && !self.fails.iter().filter(|f| f.tag == fail.tag).nth(3).is_some() {
            self.fails.push(fail);
        }
        false
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let mut s = f();
            if s.len() > 600 {
                s.truncate(600);
                s.push('…');
            }
            self.samples.push(s);
        }
    }
}
pub fn panic_msg(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}
/// Run `f`, turning a panic into `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| panic_msg(&p))
}

type ClassFn = Box<dyn Fn(&mut Cx) + Send + Sync>;
pub struct Class {
    name: String,
    f: ClassFn,
    /// weight only orders execution (longest first)
    weight: u32,
    /// exclusive classes use many threads themselves and run one at a time, after the others
    exclusive: bool,
}

pub struct Check {
    pub property: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<String>,
    classes: Vec<Class>,
}
impl Check {
    pub fn new(property: &'static str, rule: &'static str) -> Self {
        Check { property, rule, assumptions: vec![], classes: vec![] }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into())
    }
    pub fn thorough(&self) -> bool {
        std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough")
    }
    pub fn class(&mut self, name: &str, f: impl Fn(&mut Cx) + Send + Sync + 'static) {
        self.classes.push(Class { name: name.into(), f: Box::new(f), weight: 1, exclusive: false })
    }
    pub fn heavy(&mut self, name: &str, f: impl Fn(&mut Cx) + Send + Sync + 'static) {
        self.classes.push(Class { name: name.into(), f: Box::new(f), weight: 10, exclusive: false })
    }
    pub fn exclusive(&mut self, name: &str, f: impl Fn(&mut Cx) + Send + Sync + 'static) {
        self.classes.push(Class { name: name.into(), f: Box::new(f), weight: 10, exclusive: true })
    }
    /// `n` copies of a class, each with its own random stream, run in parallel.
    pub fn sharded(&mut self, name: &str, n: usize, f: impl Fn(&mut Cx) + Send + Sync + Clone + 'static) {
        for i in 0..n {
            let f = f.clone();
            self.heavy(&format!("{name}~{i}"), f);
        }
    }
    pub fn run(self) -> ! {
        main_entry(self)
    }
}
/// class name without the shard suffix: this is what known findings refer to
fn base(name: &str) -> &str {
    name.split('~').next().unwrap()
}

struct Slot {
    clock: AtomicU64, // pthread cpu clock id + 1, 0 = idle
    start_cpu: AtomicU64,
    start_wall: AtomicU64,
    class: Mutex<String>,
}
fn clock_ns(id: libc::clockid_t) -> Option<u64> {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    if unsafe { libc::clock_gettime(id, &mut ts) } != 0 {
        return None;
    }
    Some(ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64)
}
impl Slot {
    fn new() -> Slot {
        Slot { clock: AtomicU64::new(0), start_cpu: AtomicU64::new(0), start_wall: AtomicU64::new(0), class: Mutex::new(String::new()) }
    }
    fn bind(&self) {
        unsafe {
            let mut id: libc::clockid_t = 0;
            if libc::pthread_getcpuclockid(libc::pthread_self(), &mut id) == 0 {
                self.clock.store((id as u32 as u64) + 1, Ordering::SeqCst);
            }
        }
    }
    fn case_start(&self) {
        self.start_cpu.store(clock_ns(libc::CLOCK_THREAD_CPUTIME_ID).unwrap_or(0).max(1), Ordering::SeqCst);
    }
    fn case_end(&self) {
        self.start_cpu.store(0, Ordering::SeqCst);
    }
    fn stuck_ns(&self) -> u64 {
        let c = self.clock.load(Ordering::SeqCst);
        let s = self.start_cpu.load(Ordering::SeqCst);
        if c == 0 || s == 0 {
            return 0;
        }
        clock_ns((c - 1) as u32 as libc::clockid_t).unwrap_or(0).saturating_sub(s)
    }
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("KMON_ROOT").unwrap_or_else(|_| "/verif".into()))
}
fn env_tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}
fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64
}
fn class_seed(seed: u64, name: &str) -> [u8; 32] {
    // FNV-1a stretched; must not depend on the std hasher's version
    let mut out = [0u8; 32];
    for (i, o) in out.chunks_mut(8).enumerate() {
        let mut h: u64 = 0xcbf29ce484222325 ^ (i as u64).wrapping_mul(0x9e3779b97f4a7c15);
        for b in seed.to_le_bytes().iter().chain(name.as_bytes()) {
            h ^= *b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        o.copy_from_slice(&h.to_le_bytes());
    }
    out
}

#[derive(serde::Deserialize)]
struct Known {
    property: String,
    #[serde(default)]
    signature: String,
    #[serde(default)]
    what: String,
    #[serde(default)]
    status: String,
}
fn known(property: &str) -> Vec<Known> {
    let p = root().join("known_findings.jsonl");
    let Ok(s) = std::fs::read_to_string(&p) else { return vec![] };
    s.lines()
        .filter(|l| l.trim_start().starts_with('{'))
        .filter_map(|l| serde_json::from_str::<Known>(l).ok())
        .filter(|k| k.property == property && k.status == "known")
        .collect()
}

/// Cap on the processor time a single case may use before it counts as not terminating.
const CASE_CPU_LIMIT_S: u64 = 120;

fn child(check: Check, only: Option<String>, out: &Path) -> ! {
    let tier = env_tier();
    let seed = env_seed();
    std::panic::set_hook(Box::new(|_| {}));
    let classes: Vec<Class> = check
        .classes
        .into_iter()
        .filter(|c| only.as_ref().map_or(true, |o| &c.name == o || base(&c.name) == o))
        .collect();
    let dir = out.with_extension("active");
    let _ = std::fs::create_dir_all(&dir);
    let mut order: Vec<usize> = (0..classes.len()).collect();
    order.sort_by_key(|&i| (classes[i].exclusive, std::cmp::Reverse(classes[i].weight)));
    let (par, excl): (Vec<usize>, Vec<usize>) = order.into_iter().partition(|&i| !classes[i].exclusive);
    let workers = std::env::var("KMON_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let classes = Arc::new(classes);
    let results: Arc<Mutex<Vec<(usize, Cx, f64)>>> = Arc::new(Mutex::new(vec![]));
    let slots: Vec<Arc<Slot>> = (0..workers + 1).map(|_| Arc::new(Slot::new())).collect();
    {
        let slots = slots.clone();
        let dir = dir.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for s in &slots {
                if s.stuck_ns() > CASE_CPU_LIMIT_S * 1_000_000_000 {
                    let c = s.class.lock().unwrap().clone();
                    let _ = std::fs::write(dir.join("HANG"), c);
                    unsafe { libc::_exit(99) }
                }
            }
        });
    }
    let run_one = |i: usize, slot: &Arc<Slot>| {
        let c = &classes[i];
        *slot.class.lock().unwrap() = c.name.clone();
        let crumb = dir.join(format!("c{i}"));
        let _ = std::fs::write(&crumb, &c.name);
        let mut cx = Cx {
            name: c.name.clone(),
            tier,
            seed,
            rng: ChaCha20Rng::from_seed(class_seed(seed, &c.name)),
            evals: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            samples: vec![],
            fails: vec![],
            slot: slot.clone(),
        };
        let t = Instant::now();
        let r = catch_unwind(AssertUnwindSafe(|| (c.f)(&mut cx)));
        if let Err(p) = r {
            // a panic outside any case: the workload itself could not be driven
            cx.fails.push(Fail { tag: "panic-outside-case".into(), detail: panic_msg(&p) });
        }
        slot.case_end();
        let _ = std::fs::remove_file(&crumb);
        (i, cx, t.elapsed().as_secs_f64())
    };
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for w in 0..workers.min(par.len()) {
            let slot = slots[w].clone();
            let (next, par, results, run_one) = (&next, &par, &results, &run_one);
            std::thread::Builder::new()
                .name(format!("w{w}"))
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    slot.bind();
                    loop {
                        let k = next.fetch_add(1, Ordering::SeqCst);
                        if k >= par.len() {
                            break;
                        }
                        let r = run_one(par[k], &slot);
                        results.lock().unwrap().push(r);
                    }
                    slot.clock.store(0, Ordering::SeqCst);
                })
                .unwrap();
        }
    });
    if !excl.is_empty() {
        std::thread::scope(|s| {
            let slot = slots[workers].clone();
            let (excl, results, run_one) = (&excl, &results, &run_one);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    slot.bind();
                    for &i in excl {
                        let r = run_one(i, &slot);
                        results.lock().unwrap().push(r);
                    }
                })
                .unwrap();
        });
    }
    let mut rs = std::mem::take(&mut *results.lock().unwrap());
    rs.sort_by_key(|r| r.0);
    let classes: Vec<Value> = rs
        .iter()
        .map(|(_, c, t)| {
            json!({"class": c.name, "evaluations": c.evals, "distinct": c.distinct.len(), "counters": c.counters,
                   "samples": c.samples, "seconds": (t*100.0).round()/100.0,
                   "fails": c.fails.iter().map(|f| json!({"tag": f.tag, "detail": f.detail})).collect::<Vec<_>>()})
        })
        .collect();
    // distinct across classes: class name is part of each hash
    let distinct: u64 = rs.iter().map(|r| r.1.distinct.len() as u64).sum();
    std::fs::write(out, serde_json::to_vec(&json!({"classes": classes, "distinct": distinct})).unwrap()).unwrap();
    unsafe { libc::_exit(0) }
}

struct ChildOut {
    classes: Vec<Value>,
    crashed: Option<(String, Vec<String>)>,
}
fn spawn_child(only: Option<&str>, skip_tag: &str) -> ChildOut {
    let run = root().join("run");
    let _ = std::fs::create_dir_all(&run);
    let out = run.join(format!("{}-{}.json", std::process::id(), skip_tag.replace(['/', ' ', '~'], "_")));
    let dir = out.with_extension("active");
    let _ = std::fs::remove_file(&out);
    let _ = std::fs::remove_dir_all(&dir);
    let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
    cmd.arg("--child").arg(&out);
    if let Some(o) = only {
        cmd.arg(o);
    }
    cmd.stderr(std::process::Stdio::piped());
    let outp = cmd.output().expect("spawn child");
    let err = String::from_utf8_lossy(&outp.stderr).into_owned();
    let mut active: Vec<String> = vec![];
    let mut hang = None;
    if let Ok(rd) = std::fs::read_dir(&dir) {
        for e in rd.flatten() {
            let s = std::fs::read_to_string(e.path()).unwrap_or_default();
            if e.file_name() == "HANG" {
                hang = Some(s)
            } else {
                active.push(s)
            }
        }
    }
    let data = std::fs::read(&out).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok());
    let _ = std::fs::remove_file(&out);
    let _ = std::fs::remove_dir_all(&dir);
    match data {
        Some(v) if outp.status.success() => ChildOut { classes: v["classes"].as_array().cloned().unwrap_or_default(), crashed: None },
        _ => {
            let tail: String = err.lines().rev().take(6).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" | ");
            let (why, active) = match hang {
                Some(c) => (format!("a case used more than {CASE_CPU_LIMIT_S} s of processor time (does not terminate)"), vec![c]),
                None => (format!("process died: {} {}", outp.status, tail), active),
            };
            ChildOut { classes: vec![], crashed: Some((why, active)) }
        }
    }
}

fn main_entry(check: Check) -> ! {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s == "--child").unwrap_or(false) {
        let only = args.get(3).cloned();
        child(check, only, Path::new(&args[2]));
    }
    if args.get(1).map(|s| s == "--list").unwrap_or(false) {
        for c in &check.classes {
            println!("{}", c.name);
        }
        std::process::exit(0);
    }
    let only: Option<String> = args.get(1).cloned();
    let t0 = Instant::now();
    let tier = env_tier();
    let seed = env_seed();
    let prop = check.property;
    let mut classes: Vec<Value> = vec![];
    let mut crashes: Vec<(String, String)> = vec![]; // class, why
    let mut harness_error = None;
    let first = spawn_child(only.as_deref(), prop);
    match first.crashed {
        None => classes = first.classes,
        Some((why, active)) if active.len() == 1 => crashes.push((active[0].clone(), why)),
        Some((_why, _active)) => {
            // Isolate: every class in a process of its own.
            let names: Vec<String> = check
                .classes
                .iter()
                .map(|c| c.name.clone())
                .filter(|n| only.as_ref().map_or(true, |o| n == o || base(n) == o))
                .collect();
            let next = AtomicUsize::new(0);
            let acc: Mutex<(Vec<Value>, Vec<(String, String)>)> = Mutex::new((vec![], vec![]));
            std::thread::scope(|s| {
                for _ in 0..8 {
                    s.spawn(|| loop {
                        let k = next.fetch_add(1, Ordering::SeqCst);
                        if k >= names.len() || acc.lock().unwrap().1.len() >= 4 {
                            break;
                        }
                        let r = spawn_child(Some(&names[k]), &format!("{prop}-{k}"));
                        let mut a = acc.lock().unwrap();
                        match r.crashed {
                            None => a.0.extend(r.classes),
                            Some((w, _)) => a.1.push((names[k].clone(), w)),
                        }
                    });
                }
            });
            let (c, cr) = acc.into_inner().unwrap();
            classes = c;
            crashes = cr;
            if crashes.is_empty() {
                harness_error = Some(format!("child died only when classes ran together: {_why} active={_active:?}"));
            }
        }
    }
    let kn = known(prop);
    let mut kn_hit = vec![false; kn.len()];
    let mut violations: Vec<(String, String, String)> = vec![]; // signature, class, detail
    let mut add = |class: &str, tag: &str, detail: &str| {
        let sig = if tag.is_empty() { base(class).to_string() } else { format!("{}#{}", base(class), tag) };
        for (i, k) in kn.iter().enumerate() {
            if k.signature == sig {
                kn_hit[i] = true;
                return;
            }
        }
        violations.push((sig, class.to_string(), detail.to_string()));
    };
    for c in &classes {
        for f in c["fails"].as_array().into_iter().flatten() {
            add(c["class"].as_str().unwrap(), f["tag"].as_str().unwrap(), f["detail"].as_str().unwrap());
        }
    }
    for (c, w) in &crashes {
        add(c, "crash", w);
    }
    let evals: u64 = classes.iter().map(|c| c["evaluations"].as_u64().unwrap_or(0)).sum();
    let distinct: u64 = classes.iter().map(|c| c["distinct"].as_u64().unwrap_or(0)).sum();
    let mut per_class: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    for c in &classes {
        let n = c["class"].as_str().unwrap();
        let e = per_class.entry(base(n).to_string()).or_insert((0, 0));
        e.0 += c["evaluations"].as_u64().unwrap_or(0);
        e.1 += c["distinct"].as_u64().unwrap_or(0);
        if let Some(m) = c["counters"].as_object() {
            for (k, v) in m {
                *counters.entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0);
            }
        }
        for s in c["samples"].as_array().into_iter().flatten() {
            if samples.len() < 12 && !n.contains("~1") {
                samples.push(json!({"class": n, "case": s}));
            }
        }
    }
    for (i, k) in kn.iter().enumerate() {
        if kn_hit[i] {
            println!("KNOWN-FINDING: property={} {} [{}]", prop, k.what, k.signature);
        }
    }
    let ev = json!({
        "property": prop, "tier": if tier == Tier::Quick {"quick"} else {"thorough"}, "seed": seed as i64, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct, "rule": check.rule, "samples": samples,
            "classes": per_class.iter().map(|(k, v)| (k.clone(), json!({"evaluations": v.0, "distinct_nontrivial": v.1}))).collect::<serde_json::Map<_,_>>(),
            "observed": counters,
            "known_findings_reproduced": kn.iter().zip(&kn_hit).filter(|(_, h)| **h).map(|(k, _)| k.signature.clone()).collect::<Vec<_>>(),
        },
        "assumptions": check.assumptions,
        "wall_s": (t0.elapsed().as_secs_f64()*100.0).round()/100.0,
        "violations": violations.len(),
    });
    if only.is_none() {
        let evd = root().join("evidence");
        let _ = std::fs::create_dir_all(&evd);
        std::fs::write(evd.join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    } else if std::env::var("KMON_VERBOSE").is_ok() {
        println!("{}", serde_json::to_string_pretty(&ev).unwrap());
    }
    if std::env::var("KMON_TIMES").is_ok() {
        let mut v: Vec<_> = classes.iter().map(|c| (c["seconds"].as_f64().unwrap_or(0.), c["class"].as_str().unwrap().to_string(), c["evaluations"].as_u64().unwrap())).collect();
        v.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
        for x in v.iter().take(25) {
            println!("  {:8.2}s {:40} {}", x.0, x.1, x.2);
        }
    }
    if !violations.is_empty() {
        let rd = root().join("replays");
        let _ = std::fs::create_dir_all(&rd);
        let path = rd.join(format!("{prop}-seed{seed}.json"));
        let rep = json!({"property": prop, "seed": seed, "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
            "replay_with": format!("VERIF_SEED={seed} ./check {prop} <class>"),
            "violations": violations.iter().map(|(s, c, d)| json!({"signature": s, "class": c, "detail": d})).collect::<Vec<_>>()});
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
        let mut shown = HashSet::new();
        for (s, _, d) in &violations {
            if shown.insert(s.clone()) && shown.len() <= 12 {
                let mut d = d.clone();
                if d.len() > 700 {
                    let mut k = 700;
                    while !d.is_char_boundary(k) {
                        k -= 1
                    }
                    d.truncate(k);
                }
                println!("  violated {s}: {d}");
            }
        }
        println!("VIOLATION property={} replay={}", prop, path.display());
        std::process::exit(1);
    }
    if let Some(e) = harness_error {
        println!("check error: {e}");
        std::process::exit(2);
    }
    println!("OK property={prop} evaluations={evals} distinct_nontrivial={distinct} wall_s={:.1}", t0.elapsed().as_secs_f64());
    std::process::exit(0)
}

// ---------------------------------------------------------------- random helpers
pub fn below(rng: &mut impl RngCore, n: u64) -> u64 {
    rng.next_u64() % n
}
pub fn pick<'a, T>(rng: &mut impl RngCore, v: &'a [T]) -> &'a T {
    &v[(rng.next_u64() % v.len() as u64) as usize]
}
pub fn hash_of<K: Hash>(k: K) -> u64 {
    let mut h = DefaultHasher::new();
    k.hash(&mut h);
    h.finish()
}
