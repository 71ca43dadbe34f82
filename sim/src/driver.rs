//! Runs batches of simulated executions in worker processes, minimises and records failures, and
//! writes the evidence.

use crate::ctx::{Ctx, Stats, Violation};
use crate::node::{parse, SKind, SNode};
use crate::shrink::shrink;
use crate::src::Src;
use crate::{Prop, PROPS};
use std::cell::RefCell;
use std::collections::HashSet;
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const STACK: usize = 64 << 20;
/// A run without any progress for this long hangs.
const HANG: Duration = Duration::from_secs(20);

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "(no message)".to_string()
    }
}

fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        LAST_PANIC.with(|p| *p.borrow_mut() = loc);
    }));
}

/// Where the last panic on this thread was raised.
pub fn last_panic_at() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Forgets about the last panic on this thread.
pub fn forget_panic() {
    LAST_PANIC.with(|p| *p.borrow_mut() = String::new());
}

/// Performs one run.
fn execute(prop: &Prop, src: Src, trace: bool) -> (Ctx, Option<Violation>) {
    let mut ctx = Ctx::new(src, trace);
    let res = catch_unwind(AssertUnwindSafe(|| (prop.run)(&mut ctx)));
    let v = match res {
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some(v),
        Err(e) => {
            let text = panic_text(&*e);
            let class = if text == crate::io::BUDGET {
                "unbounded"
            } else {
                "panic"
            };
            Some(Violation {
                class: class.to_string(),
                msg: format!("panic: {text} ({})", last_panic_at()),
            })
        }
    };
    (ctx, v)
}

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(f)
        .expect("thread")
        .join()
        .unwrap_or_else(|e| harness_error(&format!("harness panic: {}", panic_text(&*e))))
}

fn harness_error(msg: &str) -> ! {
    eprintln!("HARNESS ERROR: {msg}");
    std::process::exit(3)
}

fn find(id: &str) -> &'static Prop {
    PROPS
        .iter()
        .find(|p| p.id == id)
        .unwrap_or_else(|| harness_error(&format!("no property {id}")))
}

/// The directory /verif.
fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

// ---------------------------------------------------------------------------------------------
// Known findings

struct Known {
    prop: String,
    class: String,
    needle: String,
    line: String,
}

fn known_findings(prop: &str) -> Vec<Known> {
    let text = fs::read_to_string(root().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    // known: property=<id> class=<class> match="<text>" <what fails>
    text.lines()
        .filter_map(|l| {
            let rest = l.strip_prefix("known: property=")?;
            let (p, rest) = rest.split_once(" class=")?;
            let (class, rest) = rest.split_once(" match=\"")?;
            let (needle, what) = rest.split_once("\" ")?;
            Some(Known {
                prop: p.to_string(),
                class: class.to_string(),
                needle: needle.to_string(),
                line: what.to_string(),
            })
        })
        .filter(|k| k.prop == prop)
        .collect()
}

fn is_known(known: &[Known], v: &Violation) -> bool {
    known
        .iter()
        .any(|k| k.class == v.class && v.msg.contains(&k.needle))
}

// ---------------------------------------------------------------------------------------------
// Entry points

pub fn main() {
    quiet_panics();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a = |i: usize| args.get(i).map(String::as_str).unwrap_or("");
    let num = |i: usize| -> u64 {
        a(i).parse()
            .unwrap_or_else(|_| harness_error(&format!("bad argument {i}")))
    };
    match a(0) {
        "check" => check(find(a(1)), a(2)),
        "worker" => {
            let (p, seed, start, stride, end, secs, out) = (
                find(a(1)),
                num(2),
                num(3),
                num(4),
                num(5),
                num(6),
                a(7).to_string(),
            );
            on_big_stack(move || worker(p, seed, start, stride, end, secs, &out));
        }
        "one" => {
            // Executes one seeded run: `one <prop> <seed> <run> [<record file>]`
            let (p, seed, run, rec) = (find(a(1)), num(2), num(3), a(4).to_string());
            on_big_stack(move || {
                let mut src = Src::seeded(seed, p.id, run);
                if !rec.is_empty() {
                    src.tee = fs::File::create(&rec).ok();
                }
                report(p, execute(p, src, true));
            });
        }
        "choices" => {
            let (p, file) = (find(a(1)), a(2).to_string());
            on_big_stack(move || {
                let mut src = Src::replay(read_choices_raw(Path::new(&file)));
                if let Some(rec) = std::env::var_os("SIM_RECORD") {
                    src.tee = fs::File::create(rec).ok();
                }
                report(p, execute(p, src, true))
            });
        }
        "runs" => {
            // Executes several seeded runs in one process; the last one counts
            let (p, seed, list) = (find(a(1)), num(2), a(3).to_string());
            on_big_stack(move || {
                let runs: Vec<u64> = list.split(',').filter_map(|r| r.parse().ok()).collect();
                let (last, before) = runs.split_last().unwrap_or_else(|| harness_error("no runs"));
                for run in before {
                    let _ = execute(p, Src::seeded(seed, p.id, *run), false);
                }
                report(p, execute(p, Src::seeded(seed, p.id, *last), true));
            });
        }
        "shrink" => {
            let (p, seed, run, out, class) =
                (find(a(1)), num(2), num(3), a(4).to_string(), a(5).to_string());
            on_big_stack(move || shrink_here(p, seed, run, Path::new(&out), &class));
        }
        "replay" => replay(a(1)),
        "determinism" => determinism(find(a(1)), num(2), num(3), num(4)),
        _ => harness_error("usage: sim check <property> quick|thorough | replay <file>"),
    }
}

/// Prints a run and exits with 1 if it failed.
fn report(p: &Prop, (ctx, v): (Ctx, Option<Violation>)) {
    let mut out = std::io::stdout().lock();
    let _ = writeln!(out, "run of {} ({} choices)", p.id, ctx.src.log.len());
    for l in ctx.trace.iter().flatten() {
        let _ = writeln!(out, "{l}");
    }
    if let Some(v) = v {
        let _ = writeln!(out, "FAILED {}: {}", v.class, v.msg);
        let _ = out.flush();
        std::process::exit(1);
    }
    let _ = writeln!(out, "PASSED");
}

fn write_choices_raw(path: &Path, c: &[u64]) {
    let bytes: Vec<u8> = c.iter().flat_map(|x| x.to_le_bytes()).collect();
    let tmp = path.with_extension("tmp");
    if fs::write(&tmp, bytes).is_ok() {
        let _ = fs::rename(&tmp, path);
    }
}

fn read_choices_raw(path: &Path) -> Vec<u64> {
    fs::read(path)
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|b| u64::from_le_bytes(b.try_into().unwrap()))
        .collect()
}

// ---------------------------------------------------------------------------------------------
// Worker

fn worker(p: &Prop, seed: u64, start: u64, stride: u64, end: u64, secs: u64, out: &str) {
    let progress = fs::File::create(format!("{out}.progress"))
        .unwrap_or_else(|e| harness_error(&e.to_string()));
    let known = known_findings(p.id);
    let deadline = Instant::now() + Duration::from_secs(secs);
    let mut stats = Stats::default();
    let mut hashes: HashSet<u64> = HashSet::new();
    let (mut evals, mut nontrivial, mut known_hits) = (0u64, 0u64, 0u64);
    let mut samples: Vec<u64> = Vec::new();
    let mut failed: Option<(u64, Violation)> = None;
    let mut run = start;
    while run < end {
        let _ = progress.write_all_at(&(run + 1).to_le_bytes(), 0);
        let (ctx, v) = execute(p, Src::seeded(seed, p.id, run), false);
        evals += 1;
        stats.merge(&ctx.stats);
        if ctx.nontrivial {
            nontrivial += 1;
            hashes.insert(ctx.hash);
            if samples.len() < 2 && ctx.src.log.len() < 400 {
                samples.push(run);
            }
        }
        if let Some(v) = v {
            if is_known(&known, &v) {
                known_hits += 1;
            } else {
                failed = Some((run, v));
                break;
            }
        }
        if evals % 64 == 0 && Instant::now() > deadline {
            break;
        }
        run += stride;
    }
    let mut res = String::new();
    res.push_str(&format!(
        "evals {evals}\nnontrivial {nontrivial}\nticks {}\nknown {known_hits}\n",
        stats.ticks
    ));
    for (k, v) in &stats.counters {
        res.push_str(&format!("counter {v} {k}\n"));
    }
    for s in samples {
        res.push_str(&format!("sample {s}\n"));
    }
    if let Some((run, v)) = failed {
        res.push_str(&format!(
            "failed {run} {} {}\n",
            v.class,
            v.msg.replace('\n', " ")
        ));
    }
    let bytes: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
    if fs::write(format!("{out}.hashes"), bytes).is_err() || fs::write(out, res).is_err() {
        harness_error("cannot write the results of a worker");
    }
}

struct Running {
    child: Child,
    out: PathBuf,
    last: u64,
    since: Instant,
}

fn limited(args: &[String]) -> Command {
    let exe = std::env::current_exe().unwrap_or_else(|e| harness_error(&e.to_string()));
    let mut c = Command::new("/bin/sh");
    // A run that allocates without bound must not take the machine down
    c.arg("-c")
        .arg("ulimit -v 6000000; ulimit -c 0; exec \"$0\" \"$@\"")
        .arg(exe)
        .args(args)
        .stdin(Stdio::null());
    c
}

fn read_progress(out: &Path) -> u64 {
    fs::read(out.with_extension("progress"))
        .ok()
        .and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap())))
        .unwrap_or(0)
}

enum Outcome {
    Passed,
    Failed(Violation),
    Crashed(String),
    Hung,
}

/// Runs a command to its end, or for the given time.
fn outcome(mut cmd: Command, limit: Duration) -> Outcome {
    let out = cmd
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| harness_error(&e.to_string()));
    let mut child = out;
    let mut pipe = child.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = std::io::Read::read_to_end(&mut pipe, &mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let end = Instant::now() + limit;
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) if Instant::now() > end => {
                let _ = child.kill();
                let _ = child.wait();
                return Outcome::Hung;
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(3)),
            Err(e) => harness_error(&e.to_string()),
        }
    };
    let text = reader.join().unwrap_or_default();
    match (status.code(), status.signal()) {
        (Some(0), _) => Outcome::Passed,
        (Some(1), _) => {
            let line = text
                .lines()
                .rev()
                .find_map(|l| l.strip_prefix("FAILED "))
                .unwrap_or("unknown: ?");
            let (class, msg) = line.split_once(": ").unwrap_or((line, ""));
            Outcome::Failed(Violation {
                class: class.to_string(),
                msg: msg.to_string(),
            })
        }
        (Some(3), _) => harness_error("a worker reported a harness error"),
        (c, s) => Outcome::Crashed(match s {
            Some(s) => format!("the process was killed by signal {s}"),
            None => format!("the process exited with {c:?}"),
        }),
    }
}

fn as_violation(o: Outcome) -> Option<Violation> {
    match o {
        Outcome::Passed => None,
        Outcome::Failed(v) => Some(v),
        Outcome::Crashed(m) => Some(Violation {
            class: "crash".into(),
            msg: m,
        }),
        Outcome::Hung => Some(Violation {
            class: "hang".into(),
            msg: "the run does not end".into(),
        }),
    }
}

fn s(x: impl ToString) -> String {
    x.to_string()
}

// ---------------------------------------------------------------------------------------------
// Check

fn check(p: &'static Prop, tier: &str) {
    let begun = Instant::now();
    let thorough = tier == "thorough";
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(1);
    let workers = std::env::var("SIM_WORKERS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get() as u64))
        .clamp(1, 16);
    let env = |k: &str, d: u64| std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d);
    let (runs, secs) = if thorough {
        (u64::MAX / 2, env("SIM_SECONDS", 600))
    } else {
        (env("SIM_RUNS", p.quick), env("SIM_SECONDS", 240))
    };
    println!("{}: seed {seed}, {workers} workers, {tier}", p.id);
    let dir = std::env::temp_dir().join(format!("sim-{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap_or_else(|e| harness_error(&e.to_string()));
    let mut running: Vec<Running> = (0..workers)
        .map(|w| {
            let out = dir.join(format!("w{w}"));
            let child = limited(&[
                s("worker"),
                s(p.id),
                s(seed),
                s(w),
                s(workers),
                s(runs),
                s(secs),
                s(out.display()),
            ])
            .spawn()
            .unwrap_or_else(|e| harness_error(&e.to_string()));
            Running {
                child,
                out,
                last: 0,
                since: Instant::now(),
            }
        })
        .collect();

    // Wait for the workers, watching for those that crash or hang
    let mut suspects: Vec<(u64, bool)> = Vec::new();
    let mut done: Vec<PathBuf> = Vec::new();
    while !running.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        let mut i = 0;
        while i < running.len() {
            let r = &mut running[i];
            match r.child.try_wait() {
                Ok(Some(st)) => {
                    if st.code() == Some(3) {
                        harness_error("a worker failed");
                    }
                    if st.success() {
                        done.push(r.out.clone());
                    } else {
                        let at = read_progress(&r.out);
                        if at == 0 {
                            harness_error("a worker could not start");
                        }
                        suspects.push((at - 1, false));
                    }
                    running.swap_remove(i);
                    continue;
                }
                Ok(None) => {
                    let at = read_progress(&r.out);
                    if at != r.last {
                        r.last = at;
                        r.since = Instant::now();
                    } else if r.since.elapsed() > HANG && at > 0 {
                        let _ = r.child.kill();
                        let _ = r.child.wait();
                        suspects.push((at - 1, true));
                        running.swap_remove(i);
                        continue;
                    }
                }
                Err(e) => harness_error(&e.to_string()),
            }
            i += 1;
        }
    }

    // Gather
    let mut stats = Stats::default();
    let mut hashes: HashSet<u64> = HashSet::new();
    let (mut evals, mut nontrivial, mut known_hits) = (0u64, 0u64, 0u64);
    let mut samples: Vec<u64> = Vec::new();
    let mut found: Vec<(u64, Violation)> = Vec::new();
    for out in &done {
        let text = fs::read_to_string(out).unwrap_or_default();
        for l in text.lines() {
            let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
            let n = || rest.parse::<u64>().unwrap_or(0);
            match k {
                "evals" => evals += n(),
                "nontrivial" => nontrivial += n(),
                "known" => known_hits += n(),
                "ticks" => stats.ticks += n(),
                "sample" => samples.push(n()),
                "counter" => {
                    if let Some((v, k)) = rest.split_once(' ') {
                        stats.add(k, v.parse().unwrap_or(0));
                    }
                }
                "failed" => {
                    let mut it = rest.splitn(3, ' ');
                    let run = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    let class = it.next().unwrap_or("").to_string();
                    let msg = it.next().unwrap_or("").to_string();
                    found.push((run, Violation { class, msg }));
                }
                _ => (),
            }
        }
        let b = fs::read(format!("{}.hashes", out.display())).unwrap_or_default();
        hashes.extend(
            b.chunks_exact(8)
                .map(|b| u64::from_le_bytes(b.try_into().unwrap())),
        );
    }
    let searched = begun.elapsed();

    // Confirm crashes and hangs
    let mut unconfirmed: Vec<(u64, Violation)> = Vec::new();
    suspects.sort_unstable();
    for (run, hung) in suspects {
        // The run with the lowest index is reported: there is no need to look past one
        if found.iter().any(|f| f.0 <= run) {
            break;
        }
        let limit = if hung { HANG * 2 } else { Duration::from_secs(120) };
        let o = outcome(limited(&[s("one"), s(p.id), s(seed), s(run)]), limit);
        match as_violation(o) {
            Some(v) => found.push((run, v)),
            None if hung => eprintln!("note: run {run} was slow, but ended"),
            None => unconfirmed.push((
                run,
                Violation { class: "crash".into(), msg: "the process was ended".into() },
            )),
        }
    }
    if found.is_empty() {
        found = unconfirmed;
    }
    found.sort_by_key(|f| f.0);
    let known = known_findings(p.id);
    found.retain(|(_, v)| !is_known(&known, v));
    let violation = found.into_iter().next();
    let replay = violation
        .as_ref()
        .map(|(run, v)| (v.clone(), record(p, seed, *run, workers, v, &dir)));

    // Evidence
    samples.sort_unstable();
    let traces: Vec<String> = samples
        .iter()
        .take(3)
        .map(|run| {
            let o = limited(&[s("one"), s(p.id), s(seed), s(*run)])
                .stderr(Stdio::null())
                .output();
            let t = o.map_or(String::new(), |o| {
                String::from_utf8_lossy(&o.stdout).into_owned()
            });
            let t: String = t.chars().take(6000).collect();
            format!("run {run}: {t}")
        })
        .collect();
    let wall = begun.elapsed().as_secs_f64();
    let hours = searched.as_secs_f64().max(1e-9) / 3600.0;
    let mut j = String::from("{\n");
    let group = |prefix: &str| -> String {
        let parts: Vec<String> = stats
            .counters
            .iter()
            .filter_map(|(k, v)| k.strip_prefix(prefix).map(|k| format!("{}: {v}", quote(k))))
            .collect();
        format!("{{{}}}", parts.join(", "))
    };
    j.push_str(&format!(
        " \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": {},\n",
        quote(p.id),
        quote(if thorough { "thorough" } else { "quick" }),
        quote("exploration")
    ));
    j.push_str(" \"coverage\": {\n");
    j.push_str(&format!("  \"evaluations\": {evals},\n"));
    j.push_str(&format!("  \"distinct_nontrivial\": {},\n", hashes.len()));
    j.push_str(&format!("  \"nontrivial_runs\": {nontrivial},\n"));
    j.push_str(&format!("  \"rule\": {},\n", quote(&squeeze(p.rule))));
    j.push_str(&format!(
        "  \"simulated_runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n",
        (evals as f64 / hours) as u64,
        (evals as f64 / hours) as u64
    ));
    j.push_str("  \"seeds\": \"each run has its own seed, derived from VERIF_SEED, the property and the run's index\",\n");
    j.push_str(&format!(
        "  \"simulated_time_ticks\": {},\n  \"simulated_time_unit\": \"one I/O call or library operation\",\n",
        stats.ticks
    ));
    j.push_str(&format!("  \"faults_injected\": {},\n", group("fault.")));
    j.push_str(&format!("  \"io\": {},\n", group("io.")));
    j.push_str(&format!("  \"operations\": {},\n", group("op.")));
    j.push_str(&format!("  \"probes\": {},\n", group("probe.")));
    j.push_str(
        "  \"distinct_measure\": \"64-bit hash of the input, the fault plan and every operation with its outcome\",\n",
    );
    j.push_str(&format!("  \"components\": {},\n", quote(&squeeze(p.stubs))));
    j.push_str(&format!("  \"workers\": {workers},\n"));
    j.push_str(&format!(
        "  \"samples\": [{}]\n }},\n",
        traces.iter().map(|t| quote(t)).collect::<Vec<_>>().join(",\n   ")
    ));
    j.push_str(&format!(
        " \"assumptions\": {},\n",
        "[\"the simulated sources and sinks behave as std::io::Read, std::io::Write, TextReader and TextWriter allow\", \"the reference models in /verif/sim are right\", \"a clean batch is evidence, not proof\"]"
    ));
    j.push_str(&format!(
        " \"wall_s\": {wall:.2},\n \"violations\": {}\n}}\n",
        u64::from(violation.is_some())
    ));
    let ev = root().join("evidence");
    let _ = fs::create_dir_all(&ev);
    if fs::write(ev.join(format!("{}.json", p.id)), j).is_err() {
        harness_error("cannot write the evidence");
    }
    let _ = fs::remove_dir_all(&dir);

    for k in &known {
        println!("KNOWN-FINDING: property={} {}", p.id, k.line);
    }
    println!(
        "{}: {evals} runs, {} distinct non-trivial, {known_hits} known, {:.1} s",
        p.id,
        hashes.len(),
        wall
    );
    if let Some((v, path)) = replay {
        println!("{}: {}", v.class, v.msg);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        std::process::exit(1);
    }
    if evals == 0 || hashes.is_empty() {
        harness_error("nothing was explored");
    }
}

fn squeeze(t: &str) -> String {
    t.split_whitespace().collect::<Vec<_>>().join(" ")
}

pub fn quote(t: &str) -> String {
    let mut out = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                out.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

// ---------------------------------------------------------------------------------------------
// Recording and replaying failures

/// Minimises a failing run and writes the replay file.
fn record(p: &Prop, seed: u64, run: u64, workers: u64, v: &Violation, dir: &Path) -> PathBuf {
    let budget = Duration::from_secs(
        std::env::var("SIM_SHRINK_SECONDS")
            .ok()
            .and_then(|v| v.parse().ok())
            .unwrap_or(40),
    );
    let raw = dir.join("choices");
    let original = if v.class == "crash" || v.class == "hang" {
        // The choices of a run which does not end are recorded as they are drawn
        let rec = dir.join("recorded");
        let limit = if v.class == "hang" {
            Duration::from_secs(10)
        } else {
            Duration::from_secs(120)
        };
        outcome(
            limited(&[s("one"), s(p.id), s(seed), s(run), s(rec.display())]),
            limit,
        );
        let choices = read_choices_raw(&rec);
        let mut test = |c: &[u64]| -> Option<Vec<u64>> {
            let f = dir.join("attempt");
            write_choices_raw(&f, c);
            let rec = dir.join("attempt-drawn");
            let mut cmd = limited(&[s("choices"), s(p.id), s(f.display())]);
            cmd.env("SIM_RECORD", &rec);
            let o = outcome(cmd, Duration::from_secs(4));
            (as_violation(o)?.class == v.class).then(|| read_choices_raw(&rec))
        };
        let deadline = Instant::now() + budget;
        let best = if test(&choices).is_some() {
            shrink(choices.clone(), deadline, &mut test, &mut |_| ())
        } else {
            choices.clone()
        };
        write_choices_raw(&raw, &best);
        choices
    } else {
        let o = outcome(
            limited(&[
                s("shrink"),
                s(p.id),
                s(seed),
                s(run),
                s(raw.display()),
                s(&v.class),
            ]),
            budget + Duration::from_secs(20),
        );
        let _ = o;
        let rec = dir.join("recorded");
        outcome(
            limited(&[s("one"), s(p.id), s(seed), s(run), s(rec.display())]),
            HANG,
        );
        read_choices_raw(&rec)
    };
    let shrunk = read_choices_raw(&raw);
    let out = root().join("replays");
    let _ = fs::create_dir_all(&out);
    let path = out.join(format!("{}-seed{seed}-run{run}.json", p.id));
    let f = dir.join("final");
    // Only what fails in the same way in a fresh process is reported as it is
    for choices in [&shrunk, &original] {
        write_choices_raw(&f, choices);
        let way = Way { choices: choices.clone(), runs: Vec::new(), attempts: 1 };
        if let Some(got) = way.fails(p, seed, &f, &v.class) {
            way.write(p, seed, run, &got, &f, &path, "");
            return path;
        }
    }
    write_choices_raw(&f, &original);
    // Does it take what earlier runs of the same process left behind?
    if let Some(way) = with_predecessors(p, seed, run, workers, &v.class, &f) {
        let note = "fails only after the earlier runs listed in \"runs\", in the same process: state is left behind";
        way.write(p, seed, run, v, &f, &path, note);
        return path;
    }
    // Does it take luck?
    let way = Way { choices: original, runs: Vec::new(), attempts: 30 };
    let (got, note) = match way.fails(p, seed, &f, &v.class) {
        Some(got) => (got, "does not fail every time: the outcome depends on something that is not simulated"),
        None if v.class == "crash" || v.class == "hang" => {
            harness_error(&format!("run {run} failed ({}: {}), but not when repeated", v.class, v.msg))
        }
        None => (v.clone(), "was observed once, and did not occur again: the outcome depends on something that is not simulated"),
    };
    way.write(p, seed, run, &got, &f, &path, note);
    path
}

/// How a violation is made to happen again.
struct Way {
    choices: Vec<u64>,
    /// If not empty: the runs to perform in one process, of which the last one fails.
    runs: Vec<u64>,
    attempts: usize,
}

impl Way {
    fn cmd(&self, p: &Prop, seed: u64, f: &Path) -> Command {
        if self.runs.is_empty() {
            return limited(&[s("choices"), s(p.id), s(f.display())]);
        }
        let list: Vec<String> = self.runs.iter().map(|r| r.to_string()).collect();
        limited(&[s("runs"), s(p.id), s(seed), list.join(",")])
    }

    fn fails(&self, p: &Prop, seed: u64, f: &Path, class: &str) -> Option<Violation> {
        let limit = if class == "hang" { Duration::from_secs(10) } else { HANG * 3 };
        (0..self.attempts).find_map(|_| {
            as_violation(outcome(self.cmd(p, seed, f), limit)).filter(|v| v.class == class)
        })
    }

    #[allow(clippy::too_many_arguments)]
    fn write(&self, p: &Prop, seed: u64, run: u64, v: &Violation, f: &Path, path: &Path, note: &str) {
        let trace = if v.class == "hang" {
            String::new()
        } else {
            self.cmd(p, seed, f)
                .stderr(Stdio::null())
                .output()
                .map_or(String::new(), |o| {
                    String::from_utf8_lossy(&o.stdout).into_owned()
                })
        };
        let lines: Vec<String> = trace.lines().take(4000).map(quote).collect();
        let list = |l: &[u64]| l.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(", ");
        let text = format!(
            "{{\n \"property\": {},\n \"seed\": {seed},\n \"run\": {run},\n \"class\": {},\n \"message\": {},\n \"note\": {},\n \"replay\": {},\n \"attempts\": {},\n \"runs\": [{}],\n \"choices\": [{}],\n \"trace\": [\n  {}\n ]\n}}\n",
            quote(p.id),
            quote(&v.class),
            quote(&v.msg),
            quote(note),
            quote(&format!("/verif/check.sh replay {}", path.display())),
            self.attempts,
            list(&self.runs),
            list(&self.choices),
            lines.join(",\n  ")
        );
        if fs::write(path, text).is_err() {
            harness_error("cannot write the replay file");
        }
    }
}

/// Finds the earlier runs of a worker after which a run fails.
fn with_predecessors(
    p: &Prop,
    seed: u64,
    run: u64,
    workers: u64,
    class: &str,
    f: &Path,
) -> Option<Way> {
    let deadline = Instant::now() + Duration::from_secs(60);
    let way = |mut before: Vec<u64>| {
        before.push(run);
        Way { choices: Vec::new(), runs: before, attempts: 1 }
    };
    let all = run / workers;
    let mut k = 1;
    let mut before: Vec<u64> = loop {
        let n = all.min(k);
        let list: Vec<u64> = (1..=n).rev().map(|i| run - i * workers).collect();
        if way(list.clone()).fails(p, seed, f, class).is_some() {
            break list;
        }
        if n == all || Instant::now() > deadline || k > 8192 {
            return None;
        }
        k *= 4;
    };
    // Leave out what is not needed
    let mut size = before.len().div_ceil(2);
    while size > 0 && before.len() > 1 && Instant::now() < deadline {
        let mut i = 0;
        while i < before.len() && Instant::now() < deadline {
            let mut cand = before.clone();
            cand.drain(i..(i + size).min(before.len()));
            if way(cand.clone()).fails(p, seed, f, class).is_some() {
                before = cand;
            } else {
                i += size;
            }
        }
        size /= 2;
    }
    Some(way(before))
}

fn shrink_here(p: &Prop, seed: u64, run: u64, out: &Path, class: &str) {
    let (ctx, v) = execute(p, Src::seeded(seed, p.id, run), false);
    if v.is_none_or(|v| v.class != class) {
        return;
    }
    write_choices_raw(out, &ctx.src.log);
    let secs = std::env::var("SIM_SHRINK_SECONDS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(40);
    let deadline = Instant::now() + Duration::from_secs(secs);
    let best = shrink(
        ctx.src.log,
        deadline,
        &mut |c| {
            let (ctx, v) = execute(p, Src::replay(c.to_vec()), false);
            v.filter(|v| v.class == class).map(|_| ctx.src.log)
        },
        &mut |best| write_choices_raw(out, best),
    );
    write_choices_raw(out, &best);
}

fn replay(file: &str) {
    let text = fs::read_to_string(file).unwrap_or_else(|e| harness_error(&format!("{file}: {e}")));
    let chars: Vec<char> = text.chars().collect();
    let doc = parse(&chars, false).unwrap_or_else(|e| harness_error(&format!("{file}: {e:?}")));
    let get = |k: &str| -> Option<&SNode> {
        match &doc.root.kind {
            SKind::Obj(es) => es.iter().find(|e| e.key == k).map(|e| &e.val),
            _ => None,
        }
    };
    let text_of = |k: &str| -> String {
        match get(k).map(|n| &n.kind) {
            Some(SKind::Str(s)) => s.clone(),
            _ => harness_error(&format!("{file}: no {k}")),
        }
    };
    let (id, class) = (text_of("property"), text_of("class"));
    let p = find(&id);
    let Some(SKind::Arr(items)) = get("choices").map(|n| &n.kind) else {
        harness_error(&format!("{file}: no choices"))
    };
    let numbers = |items: &[SNode]| -> Vec<u64> {
        items
            .iter()
            .filter_map(|n| match &n.kind {
                SKind::Num(t) => t.parse().ok(),
                _ => None,
            })
            .collect()
    };
    let number = |k: &str| match get(k).map(|n| &n.kind) {
        Some(SKind::Num(t)) => t.parse::<u64>().unwrap_or(1),
        _ => 1,
    };
    let way = Way {
        choices: numbers(items),
        runs: match get("runs").map(|n| &n.kind) {
            Some(SKind::Arr(items)) => numbers(items),
            _ => Vec::new(),
        },
        attempts: number("attempts") as usize,
    };
    let seed = number("seed");
    let dir = std::env::temp_dir().join(format!("sim-replay-{}", std::process::id()));
    let _ = fs::create_dir_all(&dir);
    let f = dir.join("choices");
    write_choices_raw(&f, &way.choices);
    if let Ok(o) = way
        .cmd(p, seed, &f)
        .stderr(Stdio::null())
        .stdout(if class == "hang" {
            Stdio::null()
        } else {
            Stdio::inherit()
        })
        .spawn()
    {
        let mut o = o;
        let end = Instant::now() + HANG;
        while o.try_wait().is_ok_and(|s| s.is_none()) && Instant::now() < end {
            std::thread::sleep(Duration::from_millis(5));
        }
        let _ = o.kill();
        let _ = o.wait();
    }
    let limit = if class == "hang" { Duration::from_secs(10) } else { HANG * 3 };
    let v = way
        .fails(p, seed, &f, &class)
        .or_else(|| as_violation(outcome(way.cmd(p, seed, &f), limit)));
    let _ = fs::remove_dir_all(&dir);
    match v {
        Some(v) => {
            println!("{}: {}", v.class, v.msg);
            println!(
                "VIOLATION property={} replay={file}{}",
                p.id,
                if v.class == class { "" } else { " (in another way than recorded)" }
            );
            std::process::exit(1);
        }
        None => println!("the recorded violation does not occur"),
    }
}

/// Prints a digest of the outcomes of a range of runs, to be compared between processes.
fn determinism(p: &'static Prop, seed: u64, from: u64, to: u64) {
    on_big_stack(move || {
        for run in from..to {
            let (ctx, v) = execute(p, Src::seeded(seed, p.id, run), true);
            let mut h = 0xcbf29ce484222325u64;
            for l in ctx.trace.iter().flatten() {
                for b in l.bytes() {
                    h = (h ^ u64::from(b)).wrapping_mul(0x100000001b3);
                }
            }
            println!(
                "{run} {:x} {h:x} {} {}",
                ctx.hash,
                ctx.stats.ticks,
                v.map_or(String::new(), |v| v.msg)
            );
        }
    });
}
