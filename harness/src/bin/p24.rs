//! P24: results do not depend on threads, schedules, other work in the pool, or the sequential build.
use kmon::prelude::*;
use kmon::work::*;
use kmon::{ensure, eqv};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Mutex};
use std::time::Duration;

type Job = (&'static str, u64, u64);
static POOLS: AtomicUsize = AtomicUsize::new(0);
/// a computation that has not answered after this long is taken to be deadlocked
const LIMIT: Duration = Duration::from_secs(150);

/// the sequential build of the crates, answering in a process of its own
struct Seq(Child, ChildStdin, BufReader<ChildStdout>);
impl Seq {
    fn start() -> Option<Seq> {
        let exe = std::env::current_exe().ok()?.with_file_name("kmon-nostd");
        // ./check removes the program before it builds, so that one that is there is of this tree
        let mut c = Command::new(exe).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
        let (i, o) = (c.stdin.take()?, BufReader::new(c.stdout.take()?));
        Some(Seq(c, i, o))
    }
    fn ask(&mut self, j: &Job) -> Option<String> {
        writeln!(self.1, "{} {} {}", j.0, j.1, j.2).ok()?;
        let mut s = String::new();
        self.2.read_line(&mut s).ok()?;
        Some(s.trim().to_string()).filter(|s| !s.is_empty())
    }
}
impl Drop for Seq {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

/// processor time of the threads of this process whose names start so
fn busy(prefix: &str) -> BTreeMap<String, u64> {
    let mut m = BTreeMap::new();
    for t in std::fs::read_dir("/proc/self/task").into_iter().flatten().flatten() {
        let Ok(n) = std::fs::read_to_string(t.path().join("comm")) else { continue };
        if n.starts_with(prefix) {
            let s = std::fs::read_to_string(t.path().join("schedstat")).unwrap_or_default();
            m.insert(n.trim().into(), s.split(' ').next().and_then(|v| v.parse().ok()).unwrap_or(0));
        }
    }
    m
}
struct Pool(Arc<rayon::ThreadPool>, String);
fn pool(threads: usize) -> Pool {
    let n = format!("k{}w", POOLS.fetch_add(1, SeqCst));
    let m = n.clone();
    Pool(Arc::new(rayon::ThreadPoolBuilder::new().num_threads(threads).thread_name(move |i| format!("{m}{i}")).build().unwrap()), n)
}
/// runs something on a thread of its own; None: no answer within the limit
fn timed<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
    let (s, r) = mpsc::channel();
    std::thread::spawn(move || {
        let _ = s.send(guard(f));
    });
    match r.recv_timeout(LIMIT) {
        Ok(Ok(v)) => Some(v),
        Ok(Err(e)) => panic!("{e}"),
        Err(_) => None,
    }
}
fn kinds() -> Vec<&'static str> {
    if cfg!(kogarashi_verif) { HOOKED.iter().chain(PUBLIC).copied().collect() } else { PUBLIC.to_vec() }
}
fn job(cx: &mut Cx, kind: &'static str) -> Job {
    let t = cx.thorough();
    let r = &mut cx.rng;
    let big = below(r, 4) == 0;
    let n = match kind {
        "msm1" => if big { 200 + below(r, if t { 3000 } else { 800 }) } else { below(r, 70) },
        "msm2" => if big { 100 + below(r, if t { 1000 } else { 200 }) } else { below(r, 40) },
        "fft" => 1 + below(r, if t { 14 } else { 12 }),
        _ => if big { 20 + below(r, 40) } else { 1 + below(r, 16) },
    };
    (kind, n, r.next_u64())
}

/// one job under every number of threads, idle or disturbed, against the sequential answer
fn pools(cx: &mut Cx, kind: &'static str) {
    let mut seq = Seq::start();
    cx.count("sequential builds at hand", seq.is_some() as u64);
    let pools: Vec<(usize, Pool)> = [1usize, 2, 3, 5, 8, 16].iter().map(|t| (*t, pool(*t))).collect();
    for _ in 0..cx.n(if kind == "groth" { 8 } else { 20 }, 120) {
        if cx.full() {
            break;
        }
        let j = job(cx, kind);
        cx.sample(|| format!("{j:?}"));
        let want = seq.as_mut().and_then(|s| s.ask(&j)).or_else(|| {
            let p = pools[0].1 .0.clone();
            guard(|| p.install(|| digest(j.0, j.1, j.2))).ok()
        });
        let noisy = below(&mut cx.rng, 2) == 0;
        let nseed = cx.rng.next_u64();
        let mut took = 0;
        cx.case((j, noisy), true, || {
            let want = want.ok_or("the job panics")?;
            ensure!(want != "rejected", "{j:?}: the sequential build's own proof is rejected");
            for (t, p) in &pools {
                let before = busy(&p.1);
                let stop = Arc::new(AtomicBool::new(false));
                if noisy {
                    // other jobs of the pool: workers disappear into naps at odd times
                    let mut r = ChaCha20Rng::seed_from_u64(nseed);
                    for _ in 0..t / 2 + 1 {
                        let (stop, us, times) = (stop.clone(), 20 + below(&mut r, 400), 20 + below(&mut r, 200));
                        p.0.spawn(move || nap(stop, us, times));
                    }
                }
                let q = p.0.clone();
                let got = timed(move || q.install(|| digest(j.0, j.1, j.2)));
                stop.store(true, SeqCst);
                let after = busy(&p.1);
                took += after.iter().filter(|(k, v)| **v > before.get(*k).copied().unwrap_or(0) + 20_000).count() as u64;
                eqv!(got, Some(want.clone()), "{j:?} with {t} threads{}", if noisy { " and other work in the pool" } else { "" });
            }
            Ok(())
        });
        cx.count("workers that took part", took);
        cx.count("runs", 6);
    }
}
fn nap(stop: Arc<AtomicBool>, us: u64, times: u64) {
    if times == 0 || stop.load(SeqCst) {
        return;
    }
    std::thread::sleep(Duration::from_micros(us));
    rayon::spawn(move || nap(stop, us, times - 1));
}
/// many jobs at once: in one pool, from outside it and from within it
fn together(cx: &mut Cx, within: bool) {
    for _ in 0..cx.n(6, 60) {
        if cx.full() {
            break;
        }
        let ks = kinds();
        let jobs: Vec<Job> = (0..3 + below(&mut cx.rng, 8)).map(|_| { let k = *pick(&mut cx.rng, &ks); job(cx, k) }).collect();
        let threads = *pick(&mut cx.rng, &[2usize, 3, 4, 8, 16]);
        cx.sample(|| format!("{threads} threads {jobs:?}"));
        cx.count("jobs at once", jobs.len() as u64);
        cx.case(format!("{jobs:?} {threads}"), true, || {
            let one = pool(1);
            let want: Vec<String> = jobs.iter().map(|j| one.0.install(|| digest(j.0, j.1, j.2))).collect();
            let p = pool(threads);
            let js = jobs.clone();
            let got = timed(move || {
                let out = Mutex::new(vec![String::new(); js.len()]);
                if within {
                    p.0.scope(|s| {
                        for (i, j) in js.iter().enumerate() {
                            let out = &out;
                            s.spawn(move |_| {
                                let d = digest(j.0, j.1, j.2);
                                out.lock().unwrap()[i] = d;
                            });
                        }
                    });
                } else {
                    std::thread::scope(|s| {
                        for (i, j) in js.iter().enumerate() {
                            let (out, p) = (&out, &p);
                            s.spawn(move || {
                                let d = p.0.install(|| digest(j.0, j.1, j.2));
                                out.lock().unwrap()[i] = d;
                            });
                        }
                    });
                }
                out.into_inner().unwrap()
            });
            eqv!(got, Some(want), "{jobs:?} at once over {threads} threads");
            Ok(())
        });
    }
}

/// the reports in a log of the thread sanitizer
fn reports(log: &str) -> impl Iterator<Item = &str> {
    log.split("==================").filter(|r| r.contains("ThreadSanitizer"))
}
/// Whether a report is about memory the repository touches: the first frame of an access that is not in the
/// standard library lies in it. The queues of the thread pool read slots that may be written at the same
/// time and drop what they read then, which the sanitizer cannot know.
fn ours(report: &str) -> bool {
    report
        .split("\n\n")
        .filter(|s| {
            let s = s.trim_start_matches(|c: char| c == '\n' || c == '=');
            !["  Location", "  Thread T", "  As if", "  Mutex", "SUMMARY"].iter().any(|p| s.starts_with(p))
        })
        .any(|s| {
            s.lines()
                .filter(|l| l.trim_start().starts_with('#'))
                .find(|l| !l.contains("/rustlib/src/rust/library/") && !l.contains("<null>") && !l.contains("/rustc/") && !l.contains("compiler-rt"))
                .map_or(false, |l| l.contains("/repo/") || l.contains("/verif/harness/"))
        })
}

/// the classes above under thread sanitizer, with an instrumented standard library
fn races(cx: &mut Cx, exe: &str) {
    let dir = std::path::PathBuf::from(std::env::var("KMON_ROOT").unwrap_or_else(|_| "/verif".into())).join("run").join(format!("p24-tsan-{}", std::process::id()));
    let mut names: Vec<String> = kinds().iter().map(|k| format!("pools-{k}")).collect();
    names.extend(["together-within".to_string(), "together-outside".into()]);
    for n in names {
        let seed = cx.rng.next_u64() >> 32;
        let _ = std::fs::create_dir_all(&dir);
        let o = Command::new(exe)
            .arg(&n)
            .env_remove("KMON_TSAN")
            .env("KMON_ROOT", &dir)
            .env("KMON_SCALE", if cx.thorough() { "8" } else { "2" })
            .env("VERIF_SEED", seed.to_string())
            .env("TSAN_OPTIONS", format!("log_path={}/tsan:exitcode=0", dir.display()))
            .stdin(Stdio::null())
            .output();
        let logs: Vec<String> = std::fs::read_dir(&dir).into_iter().flatten().flatten().filter(|e| e.file_name().to_string_lossy().starts_with("tsan")).filter_map(|e| std::fs::read_to_string(e.path()).ok()).collect();
        let _ = std::fs::remove_dir_all(&dir);
        let ran = o.map_or(false, |o| matches!(o.status.code(), Some(0 | 1)));
        cx.count("classes run under thread sanitizer", ran as u64);
        cx.case((&n, seed), ran, || {
            for l in &logs {
                if let Some(r) = reports(l).find(|r| ours(r)) {
                    let at: Vec<&str> = r.lines().filter(|l| l.contains("SUMMARY") || l.contains("    #0 ") || l.contains("/repo/")).take(6).map(|l| l.trim()).collect();
                    return fail("race", format!("{n} seed {seed}: {}", at.join(" | ")));
                }
            }
            Ok(())
        });
    }
}

fn main() {
    let mut c = Check::new("P24", "distinct computations, each run under six pools (idle or disturbed) and compared with the sequential build, or in groups at once");
    c.assume("schedules are those the scheduler, napping workers, 1 to 16 threads and concurrent jobs bring about, not all");
    for k in kinds() {
        c.exclusive(&format!("pools-{k}"), move |cx| pools(cx, k));
    }
    c.exclusive("together-within", |cx| together(cx, true));
    c.exclusive("together-outside", |cx| together(cx, false));
    if let Ok(exe) = std::env::var("KMON_TSAN") {
        c.exclusive("races", move |cx| races(cx, &exe));
    }
    c.run()
}
