//! P34: no undefined behaviour, and no dependence on overflow checks, debug assertions or the compiler.
//! The workloads of the other monitors run in two builds of one tree: the plain one, and one by a newer compiler with
//! address sanitizer, overflow checks, debug assertions and the checked preconditions of unsafe operations.
use kmon::prelude::*;
use kmon::{ensure, eqv};
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// monitor, class (None: all), share of its cases in the quick tier
const RUNS: &[(&str, Option<&str>, u64)] = &[
    ("p01", None, 20), ("p02", None, 10), ("p03", None, 10), ("p04", None, 10), ("p05", None, 10), ("p06", None, 15),
    ("p07", None, 15), ("p08", None, 10), ("p09", None, 10), ("p10", None, 20), ("p11", None, 20), ("p12", None, 10),
    ("p13", None, 10), ("p14", None, 10), ("p15", None, 10), ("p16", None, 20), ("p17", None, 10), ("p18", None, 10),
    ("p19", None, 10), ("p20", None, 10), ("p21", None, 10), ("p22", None, 10), ("p23", None, 10), ("p25", None, 10),
    ("p26", Some("Countdown-Same"), 1000),
    ("p28", Some("bn254/relations-and-keys"), 10), ("p28", Some("grumpkin/relations-and-keys"), 10),
    ("p29", None, 20), ("p30", None, 20), ("p31", Some("bn254/sums"), 10), ("p31", Some("grumpkin/keys"), 10),
    ("p32", Some("bn254/fold"), 100), ("p32", Some("grumpkin/step-same"), 100),
];

struct Seen {
    verdicts: BTreeSet<String>,
    evaluations: u64,
    answered: bool,
    logs: Vec<String>,
    tail: String,
}
fn run(exe: &Path, class: Option<&str>, scale: u64, seed: u64, dir: &Path) -> Option<Seen> {
    std::fs::create_dir_all(dir).ok()?;
    let mut c = Command::new(exe);
    c.args(class).stdin(Stdio::null()).stderr(Stdio::piped());
    c.env("KMON_ROOT", dir).env("KMON_SCALE", scale.to_string()).env("KMON_WORKERS", "2").env("VERIF_SEED", seed.to_string()).env("VERIF_TIER", "quick");
    c.env("ASAN_OPTIONS", format!("log_path={}/asan:detect_leaks=0:abort_on_error=0", dir.display()));
    let o = c.output().ok()?;
    let text = String::from_utf8_lossy(&o.stdout).into_owned();
    // "  violated SIGNATURE: detail"; a crash is a crash, whatever its last words
    let verdicts = text.lines().filter_map(|l| l.strip_prefix("  violated ")).map(|l| l.split(": ").next().unwrap_or("").to_string()).collect();
    let num = |k: &str| text.lines().filter_map(|l| l.split(k).nth(1)).filter_map(|l| l.split(' ').next()?.parse::<u64>().ok()).next();
    let logs = std::fs::read_dir(dir).ok()?.flatten().filter(|e| e.file_name().to_string_lossy().starts_with("asan")).filter_map(|e| std::fs::read_to_string(e.path()).ok()).collect();
    Some(Seen {
        verdicts,
        evaluations: num("evaluations=").unwrap_or(0),
        answered: matches!(o.status.code(), Some(0 | 1)),
        logs,
        tail: text.lines().rev().take(3).collect::<Vec<_>>().join(" | "),
    })
}

fn main() {
    let mut c = Check::new("P34", "executions of the other monitors' workloads under address sanitizer, overflow checks, debug assertions and a newer compiler, judged against the plain build of the same tree");
    c.assume("undefined behaviour that neither faults a sanitizer, a checked precondition, nor changes a verdict is not seen; verdicts are compared, not timings");
    let plain = std::env::current_exe().unwrap().parent().unwrap().to_path_buf();
    let san = std::env::var("KMON_SAN").map(PathBuf::from).ok();
    let scratch = PathBuf::from(std::env::var("KMON_ROOT").unwrap_or_else(|_| "/verif".into())).join("run").join("p34");
    for (bin, class, share) in RUNS {
        let (plain, san, scratch) = (plain.clone(), san.clone(), scratch.clone());
        c.heavy(&match class {
            None => bin.to_uppercase(),
            Some(k) => format!("{}:{k}", bin.to_uppercase()),
        }, move |cx| {
            let Some(san) = &san else { return };
            let scale = if cx.thorough() { (share / 4).max(1) } else { *share };
            for rep in 0..cx.n(1, 2) {
                let seed = cx.rng.next_u64() >> 32;
                let dir = scratch.join(format!("{}-{bin}-{seed}", std::process::id()));
                let a = run(&plain.join(bin), *class, scale, seed, &dir.join("plain"));
                let b = run(&san.join(bin), *class, scale, seed, &dir.join("san"));
                let _ = std::fs::remove_dir_all(&dir);
                let (Some(a), Some(b)) = (a, b) else {
                    cx.count("runs that could not be made", 1);
                    continue;
                };
                cx.count("executions under sanitizers", b.evaluations);
                cx.count("executions in the plain build", a.evaluations);
                cx.sample(|| format!("{bin} {class:?} seed {seed}: {} executions, verdicts {:?}", b.evaluations, b.verdicts));
                cx.case((bin, class, rep, seed), b.evaluations > 0, || {
                    for l in b.logs.iter().filter(|l| !l.contains("stack-overflow")) {
                        let s: String = l.lines().filter(|l| l.contains("ERROR") || l.contains("    #") || l.contains("SUMMARY")).take(8).collect::<Vec<_>>().join(" | ");
                        return fail("memory", format!("{bin} {class:?} seed {seed} share 1/{scale}: {s}"));
                    }
                    if a.answered && b.answered {
                        eqv!(b.verdicts, a.verdicts, "{bin} {class:?} seed {seed} share 1/{scale}: other verdicts in the checked build ({})", b.tail);
                    } else {
                        ensure!(!a.answered, "{bin} {class:?} seed {seed} share 1/{scale}: no answer in the checked build ({})", b.tail);
                    }
                    Ok(())
                });
            }
        });
    }
    c.run()
}
