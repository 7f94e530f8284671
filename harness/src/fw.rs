//! The monitor framework: a master process that shards cases over worker
//! processes, watches them (progress, exit status), aggregates what they
//! observed, and turns it into a verdict, an evidence file and replay files.
use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub enum Fail {
    /// the property is broken on this execution
    Violation(String),
    /// a recorded defect: (signature, description)
    Known(String, String),
    /// the execution says nothing about the property
    Skip(String),
}
impl From<String> for Fail {
    fn from(s: String) -> Fail {
        Fail::Violation(s)
    }
}
impl From<&str> for Fail {
    fn from(s: &str) -> Fail {
        Fail::Violation(s.to_string())
    }
}
pub type Res = Result<(), Fail>;
pub type CaseFn = fn(&mut Ctx, &mut Rng) -> Res;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::fw::Fail::Violation(format!($($a)*))); } };
}

pub struct Ctx {
    pub thorough: bool,
    pub seed: u64,
    pub case: u64,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub fps: HashSet<u64>,
    pub samples: Vec<String>,
    pub inputs: Vec<(String, Vec<u8>)>,
    pub known: BTreeSet<(String, String)>,
    pub units: u64,
}

impl Ctx {
    pub fn new(thorough: bool, seed: u64) -> Ctx {
        Ctx {
            thorough,
            seed,
            case: 0,
            counters: BTreeMap::new(),
            maxima: BTreeMap::new(),
            fps: HashSet::new(),
            samples: vec![],
            inputs: vec![],
            known: BTreeSet::new(),
            units: 0,
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn peak(&mut self, k: &str, n: u64) {
        let e = self.maxima.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    /// records one distinct non-trivial execution
    pub fn fp(&mut self, h: u64) {
        self.units += 1;
        if self.fps.len() < 2_000_000 {
            self.fps.insert(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let mut s = f();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    /// remembers an input so that a violation can be replayed outside
    pub fn input(&mut self, name: &str, bytes: &[u8]) {
        self.inputs.push((name.to_string(), bytes.to_vec()));
    }
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
    /// termination is part of the property: exhausting the CPU budget twice is a violation
    pub termination: bool,
    /// at least this many distinct non-trivial executions, or the run is inconclusive
    pub need: u64,
}

// ------------------------------------------------------------ small JSON/text

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => (),
            }
        } else {
            o.push(c);
        }
    }
    o
}

// ------------------------------------------------------------ fds and limits

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(a: i32) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

pub fn silence_stdio() -> i32 {
    use std::os::unix::io::IntoRawFd;
    let null = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .open("/dev/null")
        .expect("harness: /dev/null")
        .into_raw_fd();
    unsafe {
        let p = dup(1);
        dup2(null, 1);
        dup2(null, 2);
        close(null);
        p
    }
}

pub fn silence_only() {
    let p = silence_stdio();
    unsafe {
        close(p);
    }
}

/// Runs f with file descriptor 1 going to a temporary file; returns what was written.
pub fn capture_stdout<T>(f: impl FnOnce() -> T) -> (T, String) {
    use std::os::unix::io::AsRawFd;
    let path = crate::sut::tmp_path("out");
    let file = std::fs::File::create(&path).expect("harness: temp");
    let _ = std::io::stdout().flush();
    let v;
    unsafe {
        let keep = dup(1);
        dup2(file.as_raw_fd(), 1);
        v = f();
        let _ = std::io::stdout().flush();
        dup2(keep, 1);
        close(keep);
    }
    let s = std::fs::read(&path).unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    (v, String::from_utf8_lossy(&s).into_owned())
}

fn limit(res: i32, v: u64) {
    unsafe {
        setrlimit(res, &[v, v]);
    }
}
const RLIMIT_CPU: i32 = 0;
const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;
pub const CPU_BUDGET: u64 = 150;

// ------------------------------------------------------------ worker

pub fn case_rng(id: &str, seed: u64, case: u64) -> Rng {
    Rng::new(mix(mix(crate::rng::hash_str(id), seed), case))
}

pub fn worker(c: &Check, thorough: bool, seed: u64, first: u64, step: u64, end: u64) {
    let fd = silence_stdio();
    let mut out: std::fs::File = unsafe { std::os::unix::io::FromRawFd::from_raw_fd(fd) };
    limit(RLIMIT_CORE, 0);
    if std::env::var_os("QMON_NOLIMIT").is_none() {
        limit(RLIMIT_AS, 6 << 30);
    }
    if std::env::var_os("QMON_SOLO").is_some() {
        limit(RLIMIT_CPU, CPU_BUDGET);
    }
    unsafe {
        // die with the master
        prctl(1, 9, 0, 0, 0);
    }
    crate::sut::install_panic_hook();
    let mut ctx = Ctx::new(thorough, seed);
    // a slow machine sees fewer cases, not a different verdict
    let deadline: u64 = std::env::var("QMON_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(3600);
    let began = Instant::now();
    let mut case = first;
    while case < end {
        if began.elapsed().as_secs() >= deadline {
            ctx.count("workers stopped by the time budget", 1);
            break;
        }
        let _ = out.write_all(format!("S {}\n", case).as_bytes());
        ctx.case = case;
        ctx.inputs.clear();
        let mut rng = case_rng(c.id, seed, case);
        let before = ctx.units;
        let r = crate::sut::guarded(|| (c.f)(&mut ctx, &mut rng));
        if ctx.units == before && !matches!(r, Ok(Err(Fail::Skip(_)))) {
            // judged, but nothing in it was non-trivial
            ctx.units += 1;
        }
        let line = match r {
            Ok(Ok(())) => {
                ctx.count("evaluated", 1);
                format!("E {}\n", case)
            }
            Ok(Err(Fail::Skip(s))) => {
                ctx.count(&format!("skipped: {}", s), 1);
                format!("E {}\n", case)
            }
            Ok(Err(Fail::Known(sig, d))) => {
                ctx.count("evaluated", 1);
                ctx.known.insert((sig, d));
                format!("E {}\n", case)
            }
            Ok(Err(Fail::Violation(d))) => {
                let dir = replay_dir(c.id, seed, case);
                let _ = std::fs::create_dir_all(&dir);
                for (n, b) in &ctx.inputs {
                    let _ = std::fs::write(dir.join(n), b);
                }
                format!("V {} {}\n", case, esc(&d))
            }
            Err(p) => format!("H {} {}\n", case, esc(&p)),
        };
        let _ = out.write_all(line.as_bytes());
        case += step;
    }
    let units = ctx.units;
    ctx.count("units judged", units);
    let mut s = String::new();
    for (k, v) in &ctx.counters {
        s.push_str(&format!("C {} {}\n", v, esc(k)));
    }
    for (k, v) in &ctx.maxima {
        s.push_str(&format!("M {} {}\n", v, esc(k)));
    }
    for f in &ctx.fps {
        s.push_str(&format!("F {:x}\n", f));
    }
    for x in &ctx.samples {
        s.push_str(&format!("X {}\n", esc(x)));
    }
    for (a, b) in &ctx.known {
        s.push_str(&format!("K {} {}\n", a, esc(b)));
    }
    s.push_str("D\n");
    let _ = out.write_all(s.as_bytes());
}

// ------------------------------------------------------------ master

pub fn root() -> PathBuf {
    match std::env::var_os("QMON_ROOT") {
        Some(p) => PathBuf::from(p),
        None => PathBuf::from("/verif"),
    }
}

pub fn replay_dir(id: &str, seed: u64, case: u64) -> PathBuf {
    root()
        .join("evidence/replay")
        .join(format!("{}-{}-{}", id, seed, case))
}

#[derive(Default)]
pub struct Agg {
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub fps: HashSet<u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, String>,
    pub violations: Vec<(u64, String)>,
    pub errors: Vec<String>,
}

enum Msg {
    Line(usize, String),
    Eof(usize),
}

struct W {
    child: std::process::Child,
    current: Option<u64>,
    last: Instant,
    done: bool,
    eof: bool,
    violated: bool,
}

fn spawn(c: &Check, tier: &str, seed: u64, first: u64, step: u64, end: u64, tmp: &Path, solo: bool) -> std::process::Child {
    let mut cmd = Command::new(std::env::current_exe().expect("harness: exe"));
    cmd.args([
        "worker",
        c.id,
        tier,
        &seed.to_string(),
        &first.to_string(),
        &step.to_string(),
        &end.to_string(),
    ])
    .env("QMON_TMP", tmp)
    .env("RAYON_NUM_THREADS", "4")
    .env("QMON_DEADLINE", if tier == "thorough" { "600" } else { "180" })
    .stdin(Stdio::null())
    .stdout(Stdio::piped())
    .stderr(Stdio::null());
    if solo {
        cmd.env("QMON_SOLO", "1");
    }
    cmd.spawn().expect("harness: cannot start worker")
}

pub fn known_signatures(id: &str) -> Vec<String> {
    let text = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    let pre = format!("known: property={} signature=", id);
    text.lines()
        .filter_map(|l| l.strip_prefix(&pre))
        .map(|l| l.split_whitespace().next().unwrap_or("").to_string())
        .collect()
}

/// Runs one case alone under a CPU budget. Some(detail) if it cannot finish.
fn confirm_stuck(c: &Check, tier: &str, seed: u64, case: u64, tmp: &Path) -> Result<bool, String> {
    let mut ch = spawn(c, tier, seed, case, 1, case + 1, tmp, true);
    let start = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => {
                // SIGXCPU or the hard limit's SIGKILL
                return Ok(matches!(st.signal(), Some(24) | Some(9)));
            }
            Ok(None) => (),
            Err(e) => return Err(format!("wait: {}", e)),
        }
        if start.elapsed() > Duration::from_secs(CPU_BUDGET * 4) {
            let _ = ch.kill();
            let _ = ch.wait();
            return Ok(false);
        }
        std::thread::sleep(Duration::from_millis(200));
    }
}

pub fn master(c: &Check, tier: &str, seed: u64, cases: u64) -> Agg {
    let tmp = std::env::temp_dir().join(format!("qmon.{}.{}", c.id, std::process::id()));
    std::fs::create_dir_all(&tmp).expect("harness: scratch");
    let n = 8u64.min(cases.max(1));
    let cap = Duration::from_secs(if tier == "thorough" { 780 } else { 400 });
    let start = Instant::now();
    let mut agg = Agg::default();
    let (tx, rx) = mpsc::channel::<Msg>();
    let mut ws: Vec<W> = Vec::new();
    let mut stuck: Option<u64> = None;
    let listen = |i: usize, ch: &mut std::process::Child, tx: &mpsc::Sender<Msg>| {
        let so = ch.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(so).split(b'\n') {
                match l {
                    Ok(l) => {
                        if tx.send(Msg::Line(i, String::from_utf8_lossy(&l).into_owned())).is_err() {
                            return;
                        }
                    }
                    Err(_) => break,
                }
            }
            let _ = tx.send(Msg::Eof(i));
        });
    };
    for i in 0..n {
        let mut ch = spawn(c, tier, seed, i, n, cases, &tmp, false);
        listen(i as usize, &mut ch, &tx);
        ws.push(W { child: ch, current: None, last: Instant::now(), done: false, eof: false, violated: false });
    }
    while ws.iter().any(|w| !w.eof) {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Msg::Line(i, l)) => {
                let w = &mut ws[i];
                w.last = Instant::now();
                let (t, rest) = l.split_at(l.find(' ').unwrap_or(l.len()));
                let rest = rest.trim_start_matches(' ');
                match t {
                    "S" => w.current = rest.parse().ok(),
                    "E" => w.current = None,
                    "V" => {
                        let (k, d) = rest.split_once(' ').unwrap_or((rest, ""));
                        agg.violations.push((k.parse().unwrap_or(0), unesc(d)));
                        w.current = None;
                        w.violated = true;
                    }
                    "H" => {
                        agg.errors.push(format!("harness panic in case {}", unesc(rest)));
                        w.current = None;
                    }
                    "C" => {
                        let (v, k) = rest.split_once(' ').unwrap_or(("0", "?"));
                        *agg.counters.entry(unesc(k)).or_insert(0) += v.parse::<u64>().unwrap_or(0);
                    }
                    "M" => {
                        let (v, k) = rest.split_once(' ').unwrap_or(("0", "?"));
                        let e = agg.maxima.entry(unesc(k)).or_insert(0);
                        *e = (*e).max(v.parse::<u64>().unwrap_or(0));
                    }
                    "F" => {
                        agg.fps.insert(u64::from_str_radix(rest, 16).unwrap_or(0));
                    }
                    "X" => {
                        if agg.samples.len() < 6 {
                            agg.samples.push(unesc(rest));
                        }
                    }
                    "K" => {
                        let (s, d) = rest.split_once(' ').unwrap_or((rest, ""));
                        agg.known.insert(s.to_string(), unesc(d));
                    }
                    "D" => w.done = true,
                    _ => agg.errors.push(format!("bad worker line {:?}", l)),
                }
                if agg.violations.len() >= 5 {
                    break;
                }
            }
            Ok(Msg::Eof(i)) => {
                ws[i].eof = true;
                let st = ws[i].child.wait();
                if !ws[i].done {
                    match (ws[i].current, st) {
                        (Some(k), Ok(st)) if st.signal().is_some() && st.signal() != Some(9) => {
                            agg.violations.push((
                                k,
                                format!(
                                    "the process was killed by signal {} while running this case (abort, stack overflow or memory fault)",
                                    st.signal().unwrap()
                                ),
                            ));
                        }
                        (k, st) => agg.errors.push(format!("worker ended early in case {:?}: {:?}", k, st.map(|s| s.to_string()))),
                    }
                    break;
                }
            }
            Err(_) => (),
        }
        for w in ws.iter() {
            if !w.eof && w.current.is_some() && w.last.elapsed() > Duration::from_secs(90) {
                stuck = w.current;
            }
        }
        if stuck.is_some() {
            break;
        }
        if start.elapsed() > cap {
            agg.errors.push(format!("time cap of {:?} reached", cap));
            break;
        }
    }
    for w in ws.iter_mut() {
        let _ = w.child.kill();
        let _ = w.child.wait();
    }
    if let Some(case) = stuck {
        match confirm_stuck(c, tier, seed, case, &tmp) {
            Ok(true) if c.termination => agg.violations.push((
                case,
                format!("does not terminate: used {} CPU-seconds twice without finishing", CPU_BUDGET),
            )),
            Ok(s) => agg.errors.push(format!("case {} made no progress for 90 s (reproduced: {})", case, s)),
            Err(e) => agg.errors.push(e),
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    agg
}

/// Evidence, replay files and the process exit code.
pub fn conclude(c: &Check, tier: &str, seed: u64, mut agg: Agg, start: Instant) -> i32 {
    // findings must be listed one by one in the committed file
    let listed = known_signatures(c.id);
    let mut known_lines = vec![];
    for (sig, d) in agg.known.clone() {
        if listed.contains(&sig) {
            known_lines.push(format!("KNOWN-FINDING: property={} {}: {}", c.id, sig, d));
        } else {
            agg.violations.push((0, format!("unlisted finding {}: {}", sig, d)));
        }
    }
    agg.violations.sort();
    let executions = agg.counters.remove("evaluated").unwrap_or(0) + agg.violations.len() as u64;
    let evaluated = agg.counters.remove("units judged").unwrap_or(0).max(executions);
    agg.counters.insert("cases executed".into(), executions);
    let nontrivial = agg.fps.len() as u64;
    if agg.violations.is_empty() && agg.errors.is_empty() && nontrivial < c.need {
        agg.errors.push(format!("observed only {} distinct non-trivial executions, need {}", nontrivial, c.need));
    }
    let mut obs = String::new();
    for (k, v) in agg.counters.iter() {
        if !obs.is_empty() {
            obs.push_str(", ");
        }
        obs.push_str(&format!("{}: {}", jstr(k), v));
    }
    for (k, v) in agg.maxima.iter() {
        if !obs.is_empty() {
            obs.push_str(", ");
        }
        obs.push_str(&format!("{}: {}", jstr(&format!("max {}", k)), v));
    }
    let samples: Vec<String> = agg.samples.iter().map(|s| jstr(s)).collect();
    let assumptions: Vec<String> = c.assumptions.iter().map(|s| jstr(s)).collect();
    let errors: Vec<String> = agg.errors.iter().map(|s| jstr(s)).collect();
    let known: Vec<String> = known_lines.iter().map(|s| jstr(s)).collect();
    let verdict = if !agg.violations.is_empty() {
        "violated"
    } else if !agg.errors.is_empty() {
        "inconclusive"
    } else {
        "held on what was observed"
    };
    let ev = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": {},\n  \"verdict\": {},\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [{}],\n    \"observed\": {{{}}}\n  }},\n  \"known_findings_seen\": [{}],\n  \"errors\": [{}],\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        jstr(c.id), jstr(tier), seed, jstr(c.level), jstr(verdict), evaluated, nontrivial, jstr(c.rule),
        samples.join(", "), obs, known.join(", "), errors.join(", "), assumptions.join(", "),
        start.elapsed().as_secs_f64(), agg.violations.len()
    );
    let _ = std::fs::create_dir_all(root().join("evidence"));
    if std::fs::write(root().join("evidence").join(format!("{}.json", c.id)), ev).is_err() {
        eprintln!("harness error: cannot write evidence");
        return 2;
    }
    for l in &known_lines {
        println!("{}", l);
    }
    for (case, d) in agg.violations.iter().take(5) {
        let dir = replay_dir(c.id, seed, *case);
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(
            dir.join("detail.txt"),
            format!(
                "property {}\nseed {} case {} tier {}\nreplay: cd /verif && ./check {} --replay {} {}\n\n{}\n",
                c.id, seed, case, tier, c.id, seed, case, d
            ),
        );
        let short: String = d.chars().take(600).collect();
        println!("case {}: {}", case, short);
        println!("VIOLATION property={} replay={}", c.id, dir.join("detail.txt").display());
    }
    println!(
        "{} {} tier={} seed={}: {} cases, {} judgements, {} distinct non-trivial, {} violations, {:.1} s",
        c.id, verdict, tier, seed, executions, evaluated, nontrivial, agg.violations.len(), start.elapsed().as_secs_f64()
    );
    if !agg.violations.is_empty() {
        return 1;
    }
    if !agg.errors.is_empty() {
        for e in &agg.errors {
            eprintln!("inconclusive: {}", e);
        }
        return 2;
    }
    0
}
