//! Seeded search over simulated executions: many worker processes, one thread of simulation each; every run is
//! a pure function of (VERIF_SEED, property, run index). The real clock is only used to bound the search and
//! to notice executions which never end.
use crate::hashseed;
use crate::json::J;
use crate::props::{self, Prop};
use crate::tape::{mix, mix_bytes, Tape};
use crate::world::{Cover, Ctx, Verdict, Viol};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub struct Done {
    pub verdict: Verdict,
    pub hash: u64,
    pub nontrivial: bool,
    pub cover: Cover,
    pub trace: Vec<String>,
    pub tape: Vec<u64>,
}

pub enum Source {
    Seed(u64),
    Tape(Vec<u64>),
}

pub fn payload_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    }
}

pub fn last_panic() -> String {
    LAST_PANIC.lock().map(|x| x.clone()).unwrap_or_default()
}

fn silent_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = format!("{} at {}", payload_text(i.payload()), loc);
        }
    }));
}

/// Executes one run in a fresh thread (fresh hash seeds, own stack)
pub fn execute(p: &Prop, src: Source, tracing: bool, dump: Option<fs::File>) -> Done {
    let run = p.run;
    hashseed::with_seed(1, move || {
        let t = match src {
            Source::Seed(s) => Tape::random(s),
            Source::Tape(v) => Tape::replay(v),
        };
        if let Some(f) = dump {
            t.dump_to(f);
        }
        let ctx = Ctx::new(t, tracing);
        let verdict = match catch_unwind(AssertUnwindSafe(|| run(&ctx))) {
            Ok(v) => v,
            Err(e) => {
                let text = payload_text(&*e);
                let class = if text.contains(crate::simio::BUDGET) { "hang" } else { "panic" };
                Err(Viol { class: class.to_string(), msg: format!("panic: {}", last_panic()) })
            }
        };
        let mut h = ctx.hash();
        if let Err(ref v) = verdict {
            h = mix_bytes(h, v.class.as_bytes());
        }
        let trace = ctx.trace.borrow().clone();
        let cover = ctx.cover.borrow().clone();
        Done { hash: h, nontrivial: ctx.nontrivial(), cover, trace, tape: ctx.t.recorded(), verdict }
    })
    .unwrap_or_else(|_| Done {
        verdict: Err(Viol { class: "harness".into(), msg: format!("the harness itself panicked: {}", last_panic()) }),
        hash: 0,
        nontrivial: false,
        cover: Cover::default(),
        trace: vec![],
        tape: vec![],
    })
}

pub fn run_seed(seed: u64, prop: &str, index: u64) -> u64 {
    mix(mix_bytes(mix(0x5EED, seed), prop.as_bytes()), index)
}

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}
fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

pub fn main(args: &[String]) -> i32 {
    silent_hook();
    let a = |i: usize| args.get(i).cloned().unwrap_or_default();
    let n = |i: usize| a(i).parse::<u64>().unwrap_or(0);
    match a(0).as_str() {
        "check" => match props::find(&a(1)) {
            Some(p) => check(&p),
            None => {
                eprintln!("unknown property {}", a(1));
                2
            }
        },
        "worker" => worker(&props::find(&a(1)).unwrap(), n(2), n(3), n(4), n(5), Path::new(&a(6)), n(7), n(8)),
        "recheck" => recheck(&props::find(&a(1)).unwrap(), n(2), n(3), n(4), Path::new(&a(5))),
        "shrink" => shrink(Path::new(&a(1)), Path::new(&a(2))),
        "one" => {
            // runs one index, dumping its tape as it goes
            let p = props::find(&a(1)).unwrap();
            let f = fs::File::create(a(4)).ok();
            execute(&p, Source::Seed(run_seed(n(2), p.id, n(3))), false, f);
            0
        }
        "try" => {
            let p = props::find(&a(1)).unwrap();
            let v = read_tape(Path::new(&a(2)));
            execute(&p, Source::Tape(v), false, None);
            0
        }
        "series" => {
            // runs these indices one after the other, and then the tape: 0 without violation, 1 with one of the class
            let p = props::find(&a(1)).unwrap();
            let hist: Vec<u64> = read_tape(Path::new(&a(3)));
            match series(&p, n(2), &hist, read_tape(Path::new(&a(4))), false).verdict {
                Err(ref v) if v.class == a(5) => 1,
                _ => 0,
            }
        }
        "replay" => replay(Path::new(&a(1))),
        "hunt" => hunt(&props::find(&a(1)).unwrap(), n(2), n(3)),
        "first" => {
            // developer aid: stops at the first violation
            let p = props::find(&a(1)).unwrap();
            for i in n(2)..n(2) + n(3) {
                if let Err(v) = execute(&p, Source::Seed(run_seed(env_seed(), p.id, i)), false, None).verdict {
                    println!("{} run {}: {} {}", p.id, i, v.class, clip(&v.msg, 300));
                    return 1;
                }
            }
            0
        }
        "show" => {
            // developer aid: the trace of one run
            let p = props::find(&a(1)).unwrap();
            let d = execute(&p, Source::Seed(run_seed(env_seed(), p.id, n(2))), true, None);
            d.trace.iter().for_each(|l| println!("{}", clip(l, 1500)));
            println!("{}", d.verdict.is_ok());
            0
        }
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: sim check|replay ...");
            2
        }
    }
}

fn read_tape(p: &Path) -> Vec<u64> {
    fs::read(p).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}
fn write_tape(p: &Path, t: &[u64]) {
    let b: Vec<u8> = t.iter().flat_map(|x| x.to_le_bytes()).collect();
    let _ = fs::write(p, b);
}

/// Developer aid: the classes of violation within n runs, with one message each
fn hunt(p: &Prop, from: u64, n: u64) -> i32 {
    let mut seen: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let seed = env_seed();
    let mut cov = Cover::default();
    let t0 = Instant::now();
    let mut slow = (Duration::ZERO, 0);
    for i in from..from + n {
        let t = Instant::now();
        let d = execute(p, Source::Seed(run_seed(seed, p.id, i)), false, None);
        slow = slow.max((t.elapsed(), i));
        merge(&mut cov, &d.cover);
        if let Err(v) = d.verdict {
            let e = seen.entry(v.class.clone()).or_insert((0, i, v.msg.clone()));
            e.0 += 1;
        }
    }
    println!("{} runs in {:?}, the slowest (run {}) {:?}", n, t0.elapsed(), slow.1, slow.0);
    for (k, v) in &seen {
        println!("{} x{} first at {}: {}", k, v.0, v.1, v.2);
        let d = execute(p, Source::Seed(run_seed(seed, p.id, v.1)), true, None);
        for l in d.trace {
            println!("    {}", clip(&l, 600));
        }
    }
    if std::env::var("COV").is_ok() {
        println!("{:#?}", cov);
    }
    0
}

//------------------------------------------------------------------------------

fn merge(a: &mut Cover, b: &Cover) {
    for (k, v) in &b.hits {
        *a.hits.entry(k.clone()).or_insert(0) += v;
    }
    for (k, v) in &b.faults {
        *a.faults.entry(k.clone()).or_insert(0) += v;
    }
    a.steps += b.steps;
    a.io_calls += b.io_calls;
}

/// The first runs, whose event logs are compared with those of a second execution
const RECHECK: u64 = 2000;

fn read_stop(dir: &Path) -> u64 {
    fs::read_to_string(dir.join("stop")).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(u64::MAX)
}

fn worker(p: &Prop, seed: u64, start: u64, stride: u64, count: u64, dir: &Path, secs: u64, first: u64) -> i32 {
    let t0 = Instant::now();
    let prog = fs::OpenOptions::new().create(true).truncate(true).write(true).open(dir.join(format!("progress-{}", start))).unwrap();
    let known = known_classes(p.id);
    let mut cov = Cover::default();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut runs = 0u64;
    let mut nontrivial = 0u64;
    let mut early = 0u64;
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    let mut i = start;
    let mut stop = u64::MAX;
    let mut capped = false;
    while i < count {
        if runs % 32 == 0 {
            stop = read_stop(dir);
            if t0.elapsed().as_secs() >= secs {
                capped = true;
                break;
            }
        }
        if i > stop {
            break;
        }
        let _ = prog.write_all_at(&(i + 1).to_le_bytes(), 0);
        let d = execute(p, Source::Seed(run_seed(seed, p.id, i)), false, None);
        runs += 1;
        if (first..first + RECHECK).contains(&i) {
            early = early.wrapping_add(mix(i, d.hash));
        }
        if d.nontrivial {
            nontrivial += 1;
            hashes.insert(d.hash);
        }
        merge(&mut cov, &d.cover);
        if let Err(v) = d.verdict {
            if known.iter().any(|k| *k == v.class) {
                *known_seen.entry(v.class).or_insert(0) += 1;
            } else {
                write_tape(&dir.join(format!("tape-{}", i)), &d.tape);
                let _ = fs::write(dir.join(format!("viol-{}", i)), format!("{}\n{}", v.class, v.msg));
                let tmp = dir.join(format!("stop-{}", start));
                if i < read_stop(dir) {
                    let _ = fs::write(&tmp, i.to_string());
                    let _ = fs::rename(&tmp, dir.join("stop"));
                }
                break;
            }
        }
        i += stride;
    }
    let hb: Vec<u8> = hashes.iter().flat_map(|x| x.to_le_bytes()).collect();
    let _ = fs::write(dir.join(format!("hashes-{}", start)), hb);
    let m = |x: &BTreeMap<String, u64>| J::Obj(x.iter().map(|(k, v)| (k.clone(), J::u(*v))).collect());
    let j = J::obj(vec![
        ("runs", J::u(runs)),
        ("nontrivial", J::u(nontrivial)),
        ("early", J::u(early)),
        ("hits", m(&cov.hits)),
        ("faults", m(&cov.faults)),
        ("steps", J::u(cov.steps)),
        ("io_calls", J::u(cov.io_calls)),
        ("known", m(&known_seen)),
        ("capped", J::Bool(capped)),
    ]);
    let _ = fs::write(dir.join(format!("stats-{}", start)), j.text());
    0
}

/// Second execution of the first runs in another process, and a few of them written out
fn recheck(p: &Prop, seed: u64, first: u64, count: u64, dir: &Path) -> i32 {
    let mut early = 0u64;
    let mut samples = vec![];
    for i in first..count.min(first + RECHECK) {
        let want = samples.len() < 4 && i % 3 == 1;
        let d = execute(p, Source::Seed(run_seed(seed, p.id, i)), want, None);
        if want && d.nontrivial && d.trace.len() > 1 {
            samples.push(J::obj(vec![("run", J::u(i)), ("events", J::Arr(d.trace.iter().map(|s| J::s(clip(s, 600))).collect()))]));
        }
        early = early.wrapping_add(mix(i, d.hash));
    }
    let _ = fs::write(dir.join("recheck"), J::obj(vec![("early", J::u(early)), ("samples", J::Arr(samples))]).text());
    0
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut x: String = s.chars().take(n).collect();
        x.push_str(" ..");
        x
    }
}

//------------------------------------------------------------------------------

fn known_lines(id: &str) -> Vec<(String, String)> {
    // finding: property=<id> class=<class> <what fails>
    fs::read_to_string(verif_dir().join("known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| l.strip_prefix(&format!("property={} class=", id)))
        .filter_map(|l| l.split_once(' '))
        .map(|(c, t)| (c.to_string(), t.to_string()))
        .collect()
}
fn known_classes(id: &str) -> Vec<String> {
    known_lines(id).into_iter().map(|x| x.0).collect()
}

struct Found {
    index: u64,
    class: String,
    msg: String,
    tape: Vec<u64>,
    crash: bool,
}

fn me() -> PathBuf {
    std::env::current_exe().unwrap()
}

/// Waits for a child at most so long; None: it had to be killed
fn wait_for(c: &mut Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return Some(s),
            Ok(None) => {}
            Err(_) => return None,
        }
        if t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn quiet(args: &[String]) -> Command {
    quiet_in(&me(), args)
}

/// The same simulator built without optimisation, in which every call of the library takes its stack frame
fn plain() -> Option<PathBuf> {
    std::env::var("SIM_PLAIN_EXE").ok().map(PathBuf::from).filter(|p| p.exists())
}

fn quiet_in(exe: &Path, args: &[String]) -> Command {
    let mut c = Command::new(exe);
    c.args(args).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    c
}

fn death(s: Option<std::process::ExitStatus>) -> Option<String> {
    match s {
        None => Some("hang".into()),
        Some(s) if s.success() => None,
        Some(s) => Some(match s.signal() {
            Some(6) => "abort".into(),
            Some(x) => format!("signal-{}", x),
            None => format!("exit-{}", s.code().unwrap_or(-1)),
        }),
    }
}

const ALONE: Duration = Duration::from_secs(40);

/// Runs one index by itself; Some(class, tape) if it kills its process
fn confirm(exe: &Path, p: &Prop, seed: u64, i: u64, dir: &Path) -> Option<(String, Vec<u64>)> {
    let f = dir.join("confirm.tape");
    let mut c = quiet_in(exe, &["one".into(), p.id.into(), seed.to_string(), i.to_string(), f.display().to_string()]).spawn().ok()?;
    let d = death(wait_for(&mut c, ALONE))?;
    Some((d, read_tape(&f)))
}

fn check(p: &Prop) -> i32 {
    let t0 = Instant::now();
    let seed = env_seed();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let (count, secs) = if tier == "thorough" { (p.thorough, 5400) } else { (p.quick, 240) };
    let count = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(count);
    let jobs = std::env::var("SIM_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)) as u64;
    println!("property={} tier={} VERIF_SEED={} runs={} workers={}", p.id, tier, seed, count, jobs);
    let root = verif_dir();
    let dir = root.join("work").join(format!("{}-{}", p.id, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    if let Err(e) = fs::create_dir_all(&dir) {
        eprintln!("cannot create {}: {}", dir.display(), e);
        return 2;
    }
    // the first runs are those of the build without optimisation
    let first = match plain() {
        Some(_) if p.plain > 0 => ((count as u128 * p.plain as u128 / p.quick as u128) as u64).max(jobs),
        _ if p.plain > 0 => {
            eprintln!("the build without optimisation is missing: SIM_PLAIN_EXE");
            return 2;
        }
        _ => 0,
    };
    let exe_of = |i: u64| if i < first { plain().unwrap() } else { me() };
    // first run and exclusive end of the runs of each worker
    let mut starts: Vec<(u64, u64)> = (0..jobs).map(|w| (first + w, first + count)).collect();
    if first > 0 {
        starts.extend((0..jobs).map(|w| (w, first)));
    }
    let spawn = |w: usize| {
        let (start, end) = starts[w];
        quiet_in(
            &exe_of(start),
            &[
                "worker".into(),
                p.id.into(),
                seed.to_string(),
                start.to_string(),
                jobs.to_string(),
                end.to_string(),
                dir.display().to_string(),
                secs.to_string(),
                first.to_string(),
            ],
        )
        .spawn()
        .expect("spawn worker")
    };
    let progress = |w: u64| -> u64 {
        fs::read(dir.join(format!("progress-{}", w))).ok().and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))).unwrap_or(0)
    };
    let mut kids: Vec<Option<Child>> = (0..starts.len()).map(|w| Some(spawn(w))).collect();
    let mut seen: Vec<(u64, Instant)> = vec![(0, Instant::now()); starts.len()];
    let mut retried = vec![false; starts.len()];
    let mut found: Vec<Found> = vec![];
    let mut harness_error: Option<String> = None;
    loop {
        let mut busy = false;
        for w in 0..starts.len() {
            let status = match kids[w].as_mut() {
                None => continue,
                Some(c) => c.try_wait(),
            };
            busy = true;
            let now = progress(starts[w].0);
            let died = match status {
                Ok(Some(s)) => {
                    kids[w] = None;
                    match death(Some(s)) {
                        None => continue,
                        Some(d) => d,
                    }
                }
                _ => {
                    if now != seen[w].0 {
                        seen[w] = (now, Instant::now());
                        continue;
                    }
                    if seen[w].1.elapsed() < Duration::from_secs(30) {
                        continue;
                    }
                    let mut c = kids[w].take().unwrap();
                    let _ = c.kill();
                    let _ = c.wait();
                    "hang".to_string()
                }
            };
            if now == 0 {
                harness_error = Some(format!("worker {} ended ({}) before its first run", w, died));
                continue;
            }
            let i = now - 1;
            match confirm(&exe_of(i), p, seed, i, &dir) {
                Some((class, tape)) => {
                    found.push(Found { index: i, msg: format!("the process ends or never returns: {}", class), class, tape, crash: true });
                    if i < read_stop(&dir) {
                        let _ = fs::write(dir.join("stop"), i.to_string());
                    }
                }
                None if !retried[w] => {
                    retried[w] = true;
                    seen[w] = (0, Instant::now());
                    kids[w] = Some(spawn(w));
                }
                None => harness_error = Some(format!("worker {} died ({}) at run {}, which succeeds alone", w, died, i)),
            }
        }
        if !busy {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    // collect
    for e in fs::read_dir(&dir).into_iter().flatten().flatten() {
        let name = e.file_name().to_string_lossy().to_string();
        if let Some(i) = name.strip_prefix("viol-").and_then(|s| s.parse::<u64>().ok()) {
            let text = fs::read_to_string(e.path()).unwrap_or_default();
            let (class, msg) = text.split_once('\n').unwrap_or((&text, ""));
            found.push(Found { index: i, class: class.into(), msg: msg.into(), tape: read_tape(&dir.join(format!("tape-{}", i))), crash: false });
        }
    }
    found.sort_by_key(|f| f.index);
    let search_s = t0.elapsed().as_secs_f64();
    let mut cov = Cover::default();
    let (mut runs, mut nontrivial, mut early, mut capped) = (0u64, 0u64, 0u64, false);
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    for (w, _) in &starts {
        let j = fs::read_to_string(dir.join(format!("stats-{}", w))).ok().and_then(|s| J::parse(&s)).unwrap_or(J::Null);
        let g = |k: &str| j.get(k).map(|x| x.int()).unwrap_or(0);
        runs += g("runs");
        nontrivial += g("nontrivial");
        early = early.wrapping_add(g("early"));
        capped |= j.get("capped") == Some(&J::Bool(true));
        let m = |k: &str| -> BTreeMap<String, u64> {
            match j.get(k) {
                Some(J::Obj(m)) => m.iter().map(|(k, v)| (k.clone(), v.int())).collect(),
                _ => BTreeMap::new(),
            }
        };
        merge(&mut cov, &Cover { hits: m("hits"), faults: m("faults"), steps: g("steps"), io_calls: g("io_calls") });
        for (k, v) in m("known") {
            *known_seen.entry(k).or_insert(0) += v;
        }
        hashes.extend(read_tape(&dir.join(format!("hashes-{}", w))));
    }
    let mut samples = vec![];
    let mut determinism = J::s("not compared: the search ended early");
    if found.is_empty() && harness_error.is_none() {
        if let Ok(mut c) = quiet(&["recheck".into(), p.id.into(), seed.to_string(), first.to_string(), (first + count).to_string(), dir.display().to_string()]).spawn() {
            wait_for(&mut c, Duration::from_secs(120));
        }
        if let Some(j) = fs::read_to_string(dir.join("recheck")).ok().and_then(|s| J::parse(&s)) {
            samples = j.get("samples").map(|s| s.arr()).unwrap_or_default();
            if !capped {
                let same = j.get("early").map(|x| x.int()) == Some(early);
                determinism = J::s(format!(
                    "event logs of {} runs, executed a second time in another process with one worker instead of {}: {}",
                    count.min(RECHECK),
                    jobs,
                    if same { "identical" } else { "DIFFERENT" }
                ));
                if !same {
                    println!("WARNING: executions are not reproducible");
                }
            }
        }
    }
    // report
    let mut code = 0;
    let mut violations = 0;
    if let Some(f) = found.first() {
        violations = found.len() as i128;
        let path = report(p, seed, f, first, jobs, &exe_of(f.index), &dir);
        println!("run {} of seed {}: {}", f.index, seed, f.msg.lines().next().unwrap_or(""));
        println!("VIOLATION property={} replay={}", p.id, path.display());
        samples = vec![J::s(format!("run {}: {}", f.index, f.msg))];
        code = 1;
    } else if let Some(e) = harness_error {
        eprintln!("harness error: {}", e);
        code = 2;
    }
    for (c, t) in known_lines(p.id) {
        println!("KNOWN-FINDING: property={} {} (met in {} runs)", p.id, t, known_seen.get(&c).unwrap_or(&0));
    }
    let m = |x: &BTreeMap<String, u64>| J::Obj(x.iter().map(|(k, v)| (k.clone(), J::u(*v))).collect());
    let wall = t0.elapsed().as_secs_f64();
    let ev = J::obj(vec![
        ("property", J::s(p.id)),
        ("tier", J::s(tier)),
        ("seed", J::u(seed)),
        ("level", J::s("exploration")),
        (
            "coverage",
            J::obj(vec![
                ("evaluations", J::u(runs)),
                ("distinct_nontrivial", J::u(hashes.len() as u64)),
                ("nontrivial_runs", J::u(nontrivial)),
                ("rule", J::s(p.rule)),
                ("distinct_measure", J::s("number of different event-log hashes among the non-trivial runs; the event log holds every stream call with its position, size and outcome, every operation of the workload and its result")),
                ("samples", J::Arr(if samples.is_empty() { vec![J::s("none")] } else { samples })),
                ("runs_per_hour", J::u((runs as f64 / search_s.max(0.001) * 3600.0) as u64)),
                ("seeds_per_hour", J::u((runs as f64 / search_s.max(0.001) * 3600.0) as u64)),
                ("simulated_time", J::s("the library reads no clock and has no timers: simulated time is counted in steps (I/O calls and operations)")),
                ("simulated_steps", J::u(cov.steps)),
                ("simulated_io_calls", J::u(cov.io_calls)),
                ("faults_injected", m(&cov.faults)),
                ("conditions_reached", m(&cov.hits)),
                ("real_components", J::s(p.real)),
                ("stub_components", J::s(p.stub)),
                ("determinism", determinism),
                ("stopped_by_time_cap", J::Bool(capped)),
                ("workers", J::u(jobs)),
                ("runs_in_a_build_without_optimisation", J::u(first)),
            ]),
        ),
        (
            "assumptions",
            J::Arr(vec![
                J::s("sampling: a clean batch is evidence, not proof"),
                J::s("readers, writers and user callbacks honour the contracts of std::io and of the traits they implement, apart from the injected failures"),
            ]),
        ),
        ("wall_s", J::Num(wall)),
        ("violations", J::Int(violations)),
    ]);
    let _ = fs::create_dir_all(root.join("evidence"));
    if let Err(e) = fs::write(root.join("evidence").join(format!("{}.json", p.id)), ev.text()) {
        eprintln!("cannot write evidence: {}", e);
        code = if code == 0 { 2 } else { code };
    }
    let _ = fs::remove_dir_all(&dir);
    println!("{}: {} runs, {} distinct non-trivial, {:.1} s, exit {}", p.id, runs, hashes.len(), wall, code);
    code
}

/// Runs which precede the one in question in the same process, and that one
fn series(p: &Prop, seed: u64, hist: &[u64], tape: Vec<u64>, tracing: bool) -> Done {
    for i in hist {
        execute(p, Source::Seed(run_seed(seed, p.id, *i)), false, None);
    }
    execute(p, Source::Tape(tape), tracing, None)
}

/// Should a violation need what runs before it left behind in the process (global state of the library), those
/// runs: as few of them as possible
fn history(p: &Prop, seed: u64, f: &Found, tape: &[u64], first: u64, jobs: u64, dir: &Path) -> Option<Vec<u64>> {
    let (hf, tf) = (dir.join("hist"), dir.join("hist-tape"));
    let bad = |hist: &[u64], tape: &[u64]| -> bool {
        write_tape(&hf, hist);
        write_tape(&tf, tape);
        let args = ["series".to_string(), p.id.to_string(), seed.to_string(), hf.display().to_string(), tf.display().to_string(), f.class.clone()];
        match quiet(&args).spawn() {
            Ok(mut c) => wait_for(&mut c, Duration::from_secs(60)).map(|s| s.code() == Some(1)).unwrap_or(false),
            Err(_) => false,
        }
    };
    if bad(&[], tape) {
        return Some(vec![]);
    }
    let t0 = Instant::now();
    let base = if f.index < first { f.index % jobs } else { first + (f.index - first) % jobs };
    let all: Vec<u64> = (base..f.index).step_by(jobs as usize).collect();
    let mut n = 1;
    let mut hist = loop {
        let h = &all[all.len().saturating_sub(n)..];
        if bad(h, &f.tape) {
            break h.to_vec();
        }
        if n >= all.len() || t0.elapsed() > Duration::from_secs(120) {
            return None;
        }
        n *= 2;
    };
    let mut size = hist.len().max(1) / 2;
    while size >= 1 {
        let mut i = 0;
        while i < hist.len() && t0.elapsed() < Duration::from_secs(200) {
            let mut h = hist.clone();
            h.drain(i..(i + size).min(hist.len()));
            if bad(&h, &f.tape) {
                hist = h
            } else {
                i += size
            }
        }
        size /= 2;
    }
    Some(hist)
}

fn report(p: &Prop, seed: u64, f: &Found, first: u64, jobs: u64, exe: &Path, dir: &Path) -> PathBuf {
    let rdir = verif_dir().join("replay");
    let _ = fs::create_dir_all(&rdir);
    let path = rdir.join(format!("{}-seed{}-run{}.json", p.id, seed, f.index));
    let tape = if f.crash {
        shrink_crash(exe, p, &f.class, f.tape.clone(), dir)
    } else {
        let a = dir.join("shrink-in.json");
        let b = dir.join("shrink-best");
        let _ = fs::write(&a, J::obj(vec![("property", J::s(p.id)), ("class", J::s(f.class.as_str())), ("tape", J::Arr(f.tape.iter().map(|x| J::u(*x)).collect()))]).text());
        if let Ok(mut c) = quiet(&["shrink".into(), a.display().to_string(), b.display().to_string()]).spawn() {
            wait_for(&mut c, Duration::from_secs(120));
        }
        let t = read_tape(&b);
        if t.is_empty() {
            f.tape.clone()
        } else {
            t
        }
    };
    // the human-readable trace and the message of the minimised run
    let (mut trace, mut msg) = (vec![], f.msg.clone());
    let (mut tape, mut hist) = (tape, vec![]);
    if !f.crash {
        match history(p, seed, f, &tape, first, jobs, dir) {
            Some(h) if h.is_empty() => {}
            Some(h) => {
                println!("needs what {} earlier runs leave behind in the process", h.len());
                tape = f.tape.clone();
                hist = h;
            }
            None => println!("NOTE: not reproduced in a process of its own"),
        }
        let d = series(p, seed, &hist, tape.clone(), true);
        trace = d.trace;
        if let Err(v) = d.verdict {
            msg = v.msg;
        }
    }
    let j = J::obj(vec![
        ("property", J::s(p.id)),
        ("seed", J::u(seed)),
        ("run", J::u(f.index)),
        ("class", J::s(f.class.as_str())),
        ("violation", J::s(msg.clone())),
        ("trace", J::Arr(trace.iter().map(|s| J::s(clip(s, 4000))).collect())),
        ("history", J::Arr(hist.iter().map(|x| J::u(*x)).collect())),
        ("tape", J::Arr(tape.iter().map(|x| J::u(*x)).collect())),
        ("replay_with", J::s(format!("bash /verif/run.sh replay {}", path.display()))),
    ]);
    let _ = fs::write(&path, j.text());
    println!("minimised from {} to {} choices: {}", f.tape.len(), tape.len(), msg.lines().next().unwrap_or(""));
    for l in &trace {
        println!("  | {}", clip(l, 400));
    }
    path
}

fn replay(path: &Path) -> i32 {
    let j = match fs::read_to_string(path).ok().and_then(|s| J::parse(&s)) {
        Some(j) => j,
        None => {
            eprintln!("cannot read {}", path.display());
            return 2;
        }
    };
    let id = j.get("property").map(|x| x.str()).unwrap_or_default();
    let class = j.get("class").map(|x| x.str()).unwrap_or_default();
    let p = match props::find(&id) {
        Some(p) => p,
        None => return 2,
    };
    let tape: Vec<u64> = j.get("tape").map(|t| t.arr().iter().map(|x| x.int()).collect()).unwrap_or_default();
    if class == "abort" || class == "hang" || class.starts_with("signal") || class.starts_with("exit") {
        let f = std::env::temp_dir().join(format!("sim-replay-{}.tape", std::process::id()));
        write_tape(&f, &tape);
        let go = |exe: PathBuf| quiet_in(&exe, &["try".into(), id.clone(), f.display().to_string()]).spawn().ok().and_then(|mut c| death(wait_for(&mut c, ALONE)));
        let d = go(me()).or_else(|| plain().and_then(go));
        let _ = fs::remove_file(&f);
        if let Some(d) = d {
            println!("reproduced: {}", d);
            println!("VIOLATION property={} replay={}", id, path.display());
            return 1;
        }
    }
    let hist: Vec<u64> = j.get("history").map(|t| t.arr().iter().map(|x| x.int()).collect()).unwrap_or_default();
    let seed = j.get("seed").map(|x| x.int()).unwrap_or(0);
    let d = series(&p, seed, &hist, tape, true);
    for l in &d.trace {
        println!("  | {}", l);
    }
    match d.verdict {
        Ok(()) => {
            println!("not reproduced: the run ends without a violation");
            0
        }
        Err(v) => {
            println!("reproduced{}: {}", if v.class == class { "" } else { " (another class)" }, v.msg);
            println!("VIOLATION property={} replay={}", id, path.display());
            1
        }
    }
}

//------------------------------------------------------------------------------
// Minimisation: fewer choices, then smaller ones (0 is always the plainest), while the class of violation stays

fn reduce(mut best: Vec<u64>, mut tries: usize, mut bad: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let simpler = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    loop {
        let before = best.clone();
        // cut the tail, drop blocks
        let mut size = best.len() / 2;
        while size >= 1 && tries > 0 {
            let mut i = 0;
            while i < best.len() && tries > 0 {
                let mut c = best.clone();
                c.drain(i..(i + size).min(best.len()));
                tries -= 1;
                match bad(&c) {
                    Some(t) if simpler(&t, &best) => best = t,
                    _ => i += size,
                }
            }
            size /= 2;
        }
        // zero blocks
        let mut size = best.len() / 2;
        while size >= 1 && tries > 0 {
            let mut i = 0;
            while i < best.len() && tries > 0 {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    tries -= 1;
                    if let Some(t) = bad(&c) {
                        if simpler(&t, &best) {
                            best = t;
                        }
                    }
                }
                i += size;
            }
            size /= 2;
        }
        // smaller values
        let mut i = 0;
        while i < best.len() && tries > 0 {
            for v in [best[i] / 2, best[i].saturating_sub(1)] {
                if i < best.len() && v < best[i] && tries > 0 {
                    let mut c = best.clone();
                    c[i] = v;
                    tries -= 1;
                    if let Some(t) = bad(&c) {
                        if simpler(&t, &best) {
                            best = t;
                        }
                    }
                }
            }
            i += 1;
        }
        if tries == 0 || best == before {
            return best;
        }
    }
}

fn shrink(input: &Path, out: &Path) -> i32 {
    let j = match fs::read_to_string(input).ok().and_then(|s| J::parse(&s)) {
        Some(j) => j,
        None => return 2,
    };
    let p = props::find(&j.get("property").unwrap().str()).unwrap();
    let class = j.get("class").unwrap().str();
    let tape: Vec<u64> = j.get("tape").unwrap().arr().iter().map(|x| x.int()).collect();
    let mut best_len = usize::MAX;
    reduce(tape, 6000, |c| {
        let d = execute(&p, Source::Tape(c.to_vec()), false, None);
        match d.verdict {
            Err(v) if v.class == class => {
                if d.tape.len() <= best_len {
                    best_len = d.tape.len();
                    write_tape(out, &d.tape);
                }
                Some(d.tape)
            }
            _ => None,
        }
    })
    .pipe(|b| write_tape(out, &b));
    0
}
trait Pipe: Sized {
    fn pipe<T>(self, f: impl FnOnce(Self) -> T) -> T {
        f(self)
    }
}
impl<T> Pipe for T {}

fn shrink_crash(exe: &Path, p: &Prop, class: &str, tape: Vec<u64>, dir: &Path) -> Vec<u64> {
    let f = dir.join("try.tape");
    let t0 = Instant::now();
    let (tries, limit) = if class == "hang" { (12, Duration::from_secs(5)) } else { (300, Duration::from_secs(10)) };
    reduce(tape, tries, |c| {
        if t0.elapsed() > Duration::from_secs(90) {
            return None;
        }
        write_tape(&f, c);
        let mut k = quiet_in(exe, &["try".into(), p.id.into(), f.display().to_string()]).spawn().ok()?;
        if death(wait_for(&mut k, limit)).as_deref() == Some(class) {
            Some(c.to_vec())
        } else {
            None
        }
    })
}
