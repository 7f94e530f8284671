//! C27: what calls leave behind. A batch of calls of one kind, each on files
//! of its own, some unusable, some with a fault injected, is watched from
//! outside: paths opened, files changed, descriptors, threads, memory.
use crate::ensure;
use crate::fw::{Ctx, Fail, Res};
use crate::io::{self, Plan};
use crate::mapgen::*;
use crate::rng::{hash_bytes, hash_str, mix, Rng};
use crate::sut::{self, RunOut, TmpFile};
use crate::world::{self, WOpts};
use quarchitect::{game_data::forge, wad};
use std::collections::BTreeMap;
use std::path::PathBuf;

/// How a call ended: 0 with success, 1 with an error, 2 with a panic.
type Call = Box<dyn Fn() -> u8>;

struct Job {
    call: Call,
    /// every path the call was given
    given: Vec<String>,
    /// the one it may write
    saved: Option<PathBuf>,
    files: Vec<TmpFile>,
    hash: u64,
}

fn status<T, E>(r: Result<Result<T, E>, String>) -> u8 {
    match r {
        Ok(Ok(_)) => 0,
        Ok(Err(_)) => 1,
        Err(_) => 2,
    }
}

/// Some bytes of it changed, or its end missing.
fn damage(r: &mut Rng, b: &mut Vec<u8>) {
    if r.chance(1, 2) {
        let k = r.below(b.len() + 1);
        b.truncate(k);
    } else if !b.is_empty() {
        for _ in 0..r.range(1, 8) {
            let k = r.below(b.len());
            b[k] = r.below(256) as u8;
        }
    }
}

fn file(r: &mut Rng, mut b: Vec<u8>, ext: &str, harm: bool) -> (TmpFile, u64) {
    if harm && r.chance(1, 2) {
        damage(r, &mut b);
    }
    let h = hash_bytes(&b);
    (TmpFile::new(&b, ext), h)
}

/// A path that leads nowhere, of no file or of a file that went away.
fn nowhere(r: &mut Rng, ext: &str) -> String {
    match r.below(3) {
        0 => sut::tmp_path(ext).to_string_lossy().into_owned(),
        1 => format!("/nonexistent/{}.{}", r.below(100000), ext),
        _ => sut::tmp_dir().to_string_lossy().into_owned(),
    }
}

pub const KINDS: [&str; 6] = ["building a map", "reading textures", "reading and converting textures", "reading a palette", "comparing files", "saving definitions"];

fn job(r: &mut Rng, kind: usize, harm: bool) -> Job {
    let lost = harm && r.chance(1, 8);
    let mut files = vec![];
    let mut given = vec![];
    let mut saved = None;
    let mut hash = hash_str(KINDS[kind]);
    let mut input = |r: &mut Rng, b: Vec<u8>, ext: &str| -> String {
        if lost {
            let p = nowhere(r, ext);
            given.push(p.clone());
            return p;
        }
        let (f, h) = file(r, b, ext, harm);
        hash = mix(hash, h);
        let p = f.path().to_string();
        given.push(p.clone());
        files.push(f);
        p
    };
    let call: Call = match kind {
        0 => {
            let many = r.chance(1, 12);
            let o = WOpts { ents: if many { (20, 120) } else { (1, 6) }, brushes: (0, if many { 1 } else { 2 }), origins: true, groups: r.chance(1, 2), phong: r.chance(1, 3), mixed_defs: r.chance(1, 3), ..WOpts::default() };
            let w = world::gen(r, &o);
            let t = render(r, &w.map, &Style::plain());
            let p = input(r, t.into_bytes(), "map");
            let c = w.cfg;
            Box::new(move || match sut::run_path(&p, &c) {
                RunOut::Tree(_) => 0,
                RunOut::Error(_) => 1,
                RunOut::Panic(_) => 2,
            })
        }
        1 | 2 => {
            let max_tex = if r.chance(1, 12) { 70 } else { 5 };
            let w = crate::checks_wad::gen(r, &crate::checks_wad::WadOpts { min_tex: 1, max_tex, max_dim: 2 });
            let p = input(r, w.bytes, "wad");
            let pal: Vec<u8> = (0..768).map(|_| r.below(256) as u8).collect();
            let levels = r.range(1, 4) as usize;
            if kind == 1 {
                Box::new(move || status(sut::guarded(|| wad::read_textures(&p, None, levels))))
            } else {
                let q = input(r, pal, "lmp");
                Box::new(move || {
                    status(sut::guarded(|| {
                        let pal = wad::palette::read_palette(&q);
                        for t in wad::read_textures(&p, None, levels)? {
                            t.into_rgb(pal.as_ref().ok().map(|p| wad::palette::Palette(p.0)))?;
                        }
                        Ok::<(), String>(())
                    }))
                })
            }
        }
        3 => {
            let pal: Vec<u8> = (0..768 + r.below(3)).map(|_| r.below(256) as u8).collect();
            let p = input(r, pal, "lmp");
            Box::new(move || status(sut::guarded(|| wad::palette::read_palette(&p))))
        }
        4 => {
            let (a, b) = crate::checks_misc::diff_lines(r);
            let p = input(r, a.join("\n").into_bytes(), "cmp");
            let q = input(r, b.join("\n").into_bytes(), "cmp");
            Box::new(move || status(sut::guarded(|| quarchitect::run_diff(&p, &q))))
        }
        _ => {
            let g: forge::GameData = crate::checks_misc::rand_game_data(r);
            let p = match r.below(3) {
                _ if lost => PathBuf::from(nowhere(r, "fgd")),
                0 => sut::tmp_path("fgd"),
                _ => {
                    let f = TmpFile::new(&vec![b'#'; r.below(3000)], "fgd");
                    let p = f.0.clone();
                    files.push(f);
                    p
                }
            };
            given.push(p.to_string_lossy().into_owned());
            saved = Some(p.clone());
            let p = p.to_string_lossy().into_owned();
            hash = mix(hash, hash_str(&g.to_string()));
            Box::new(move || status(sut::guarded(|| g.save(p.clone()))))
        }
    };
    Job { call, given, saved, files, hash }
}

/// A directory of its own for the files of one case.
struct Room(PathBuf, Option<std::ffi::OsString>);
impl Room {
    fn new(case: u64) -> Room {
        let d = sut::tmp_dir().join(format!("room{}_{}", std::process::id(), case));
        std::fs::create_dir_all(&d).expect("harness: scratch");
        let old = std::env::var_os("QMON_TMP");
        std::env::set_var("QMON_TMP", &d);
        Room(d, old)
    }
}
impl Drop for Room {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
        match self.1.take() {
            Some(o) => std::env::set_var("QMON_TMP", o),
            None => std::env::remove_var("QMON_TMP"),
        }
    }
}

fn names(dir: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    if let Ok(d) = std::fs::read_dir(dir) {
        for e in d.flatten() {
            let to = std::fs::read_link(e.path()).map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
            m.insert(e.file_name().to_string_lossy().into_owned(), to);
        }
    }
    m
}

/// Open descriptors, without the one that lists them.
fn descriptors() -> BTreeMap<String, String> {
    let mut m = names("/proc/self/fd");
    m.retain(|_, to| !to.starts_with("/proc/") && !to.is_empty());
    m
}

/// What belongs to the whole process.
fn process() -> Vec<String> {
    let mut v: Vec<String> = std::env::vars_os().map(|(k, v)| format!("environment: {:?}={:?}", k, v)).collect();
    v.sort();
    v.push(format!("working directory: {:?}", std::env::current_dir().ok()));
    if let Ok(s) = std::fs::read_to_string("/proc/self/status") {
        // signals 32 and 33 belong to the thread library
        let low = |l: &str| if l.starts_with("Sig") { format!("{}{}", &l[..8], &l[l.len().saturating_sub(8)..]) } else { l.to_string() };
        v.extend(s.lines().filter(|l| ["Umask", "SigBlk", "SigIgn", "SigCgt", "CapEff", "NoNewPrivs", "Seccomp:"].iter().any(|k| l.starts_with(k))).map(low));
    }
    v
}

fn files_in(dir: &PathBuf) -> BTreeMap<String, u64> {
    let mut m = BTreeMap::new();
    if let Ok(d) = std::fs::read_dir(dir) {
        for e in d.flatten() {
            let h = std::fs::read(e.path()).map(|b| hash_bytes(&b)).unwrap_or(0);
            m.insert(e.file_name().to_string_lossy().into_owned(), h);
        }
    }
    m
}

/// Makes the call; with a fault its files fail at the k-th system call.
fn make(j: &Job, fault: Option<u64>) -> u8 {
    match fault {
        None => (j.call)(),
        Some(k) => {
            let plan = Plan { fail_at: Some((k, io::EIO)), sticky: k % 2 == 0, seed: k + 1, ..Plan::default() };
            io::with_plan("/q", plan, || (j.call)()).0
        }
    }
}

pub fn c27(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let kind = r.below(KINDS.len());
    let what = KINDS[kind];
    let harm = r.chance(1, 2);
    let faults = r.chance(1, 3);
    let n = 32;
    let warm = 8;
    let room = Room::new(ctx.case);
    let seeds: Vec<u64> = (0..n).map(|_| r.next()).collect();
    let fate: Vec<Option<u64>> = (0..n).map(|_| if faults && r.chance(1, 2) { Some(r.below(12) as u64) } else { None }).collect();
    let jobs: Vec<Job> = seeds.iter().map(|s| job(&mut Rng::new(*s), kind, harm)).collect();
    ctx.sample(|| format!("{} x {}{}{}", n, what, if harm { ", some files damaged or missing" } else { "" }, if faults { ", some calls disturbed" } else { "" }));
    let saved: Vec<String> = jobs.iter().filter_map(|j| j.saved.as_ref()).map(|p| p.to_string_lossy().into_owned()).collect();
    let before = files_in(&room.0);
    let state = process();
    let mut ended = [0u64; 3];
    let mut grown: Vec<(usize, isize)> = vec![];
    let mut fds = BTreeMap::new();
    let mut tasks = 0;
    let mut opens = 0;
    for (k, j) in jobs.iter().enumerate() {
        if k == warm {
            fds = descriptors();
            tasks = names("/proc/self/task").len();
        }
        let mut end = 2;
        let d = io::kept(|| end = make(j, fate[k]));
        ended[end as usize] += 1;
        if end == 2 {
            return Err(Fail::Skip(format!("{} panics", what)));
        }
        if d > 0 {
            grown.push((k, d));
        }
        ctx.fp(mix(j.hash, fate[k].unwrap_or(99)));
    }
    ctx.count(&format!("{}: succeeded", what), ended[0]);
    ctx.count(&format!("{}: failed", what), ended[1]);
    // descriptors
    let now = descriptors();
    let new: Vec<&String> = now.iter().filter(|(k, v)| fds.get(*k) != Some(v)).map(|x| x.1).collect();
    ensure!(new.is_empty() && now.len() <= fds.len(), "{}: {} calls leave descriptors open: {:?}", what, n - warm, new);
    // threads: one may take a moment to end
    let mut t = 0;
    for wait in [0u64, 1, 10, 100, 1000, 3000] {
        std::thread::sleep(std::time::Duration::from_millis(wait));
        t = names("/proc/self/task").len();
        if t <= tasks {
            break;
        }
    }
    ensure!(t <= tasks, "{}: {} calls leave {} threads behind", what, n - warm, t - tasks);
    // files
    let after = files_in(&room.0);
    let base = |p: &String| p.rsplit('/').next().unwrap_or("").to_string();
    let may: Vec<String> = saved.iter().map(base).collect();
    for (f, h) in &before {
        if !may.contains(f) {
            ensure!(after.get(f) == Some(h), "{}: the given file {} is changed or gone", what, f);
        }
    }
    for f in after.keys() {
        ensure!(before.contains_key(f) || may.contains(f), "{}: leaves a file {} behind", what, f);
    }
    // the process itself
    let gone: Vec<String> = state.iter().filter(|x| !process().contains(x)).cloned().collect();
    let come: Vec<String> = process().into_iter().filter(|x| !state.contains(x)).collect();
    ensure!(gone.is_empty() && come.is_empty(), "{}: the process is changed: {:?} became {:?}", what, gone, come);
    let probe = format!("probe {}", ctx.case);
    let caught = sut::guarded(|| {
        if !probe.is_empty() {
            panic!("{}", probe);
        }
    });
    ensure!(matches!(&caught, Err(p) if p.starts_with(&probe)), "{}: the panic hook of the process is gone: {:?}", what, caught);
    ctx.count("descriptors, threads, files and process state compared", 1);
    // memory: the same call again and again, or every few calls
    let late = grown.iter().filter(|g| g.0 >= warm).count();
    for (k, _) in grown.iter().take(6) {
        let mut d = vec![];
        for _ in 0..6 {
            let j = job(&mut Rng::new(seeds[*k]), kind, harm);
            d.push(io::kept(|| {
                make(&j, fate[*k]);
            }));
            unsave(&j);
        }
        ensure!(d.iter().any(|d| *d <= 0), "{}: every repetition of a call keeps memory allocated: {:?} bytes", what, d);
        ctx.count("calls repeated for memory", 1);
    }
    if late >= 4 {
        let mut d = vec![];
        for _ in 0..n {
            let j = job(&mut Rng::new(r.next()), kind, harm);
            d.push(io::kept(|| {
                make(&j, None);
            }));
            unsave(&j);
        }
        ensure!(d.iter().filter(|d| **d > 0).count() < 4, "{}: memory grows with the number of calls: {:?} bytes", what, d);
    }
    ctx.count("calls metered", n as u64);
    // paths opened, in a few calls of their own
    for _ in 0..3 {
        let j = job(&mut Rng::new(r.next()), kind, harm);
        let here = files_in(&room.0);
        let (_, paths) = io::recorded(|| make(&j, None));
        for (p, flags) in paths {
            opens += 1;
            let p = String::from_utf8_lossy(&p).into_owned();
            let own = j.given.contains(&p)
                || std::fs::canonicalize(&p).map_or(false, |c| j.given.iter().any(|g| std::fs::canonicalize(g).map_or(false, |g| g == c)));
            let writes = flags & 3 != 0;
            if own {
                ensure!(!writes || j.saved.is_some(), "{}: opens {} for writing", what, p);
            } else if j.saved.is_some() && PathBuf::from(&p).parent() == j.saved.as_ref().and_then(|s| s.parent()) {
                // saving by way of a second file is judged by what is left
                ctx.count("second files used in saving", 1);
            } else {
                let system = ["/proc/", "/sys/", "/dev/", "/etc/", "/usr/", "/lib"].iter().any(|s| p.starts_with(s));
                ensure!(system && !writes, "{}: opens {:?} ({}), which it was not given", what, p, if writes { "for writing" } else { "for reading" });
            }
        }
        let mine = j.saved.as_ref().map(|p| base(&p.to_string_lossy().into_owned()));
        for f in files_in(&room.0).keys() {
            ensure!(here.contains_key(f) || Some(f) == mine.as_ref(), "{}: leaves a file {} behind", what, f);
        }
        unsave(&j);
    }
    ctx.count("opened paths judged", opens);
    drop(jobs);
    Ok(())
}

/// Removes a file only the call made.
fn unsave(j: &Job) {
    if let Some(p) = &j.saved {
        if p.is_file() {
            let _ = std::fs::remove_file(p);
        }
    }
}
