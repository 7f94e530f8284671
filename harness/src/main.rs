mod checks_api;
mod checks_ent;
mod checks_geo;
mod checks_left;
mod checks_misc;
mod checks_wad;
mod crowd;
mod fgd;
mod fw;
mod geom;
mod hostile;
mod io;
mod mapgen;
mod rng;
mod scene;
mod sut;
mod tiny;
mod vocab;
mod world;

use fw::Check;

#[global_allocator]
static ALLOC: io::Meter = io::Meter;

use std::time::Instant;

fn checks() -> Vec<Check> {
    const API: &str = "driven through the public API in a build with debug assertions and overflow checks on";
    let ck = |id, quick, need, f, level, rule, assumptions| Check {
        id,
        level,
        rule,
        assumptions,
        quick,
        thorough: 1_000_000_000,
        f,
        termination: true,
        need,
    };
    const X: &str = "exploration";
    vec![
        ck("C01", 150000, 20000, checks_ent::c01, X,
            "one case = one hostile map (random bytes, token soup, mutated valid map, extreme geometry, hostile group data, values at the edge) built with a hostile configuration; non-trivial: more than 20 bytes, counted by the hash of the bytes; an evaluation is one such unit judged, or a case without any",
            &[API, "inputs up to 130 kB, brushes up to 64 planes, group chains up to 7000 deep on a 2 MB stack", "a build that exhausts 150 CPU-seconds twice counts as not terminating"]),
        ck("C02", 40000, 20000, checks_ent::c02, X,
            "one case = one generated valid map (has to build) and a batch of structural damages of it (each has to be rejected); non-trivial: a damaged map, counted by the hash of its bytes; an evaluation is one such unit judged, or a case without any",
            &[API]),
        ck("C03", 50000, 20000, checks_ent::c03, X,
            "one case = one generated map rendered canonically and three rewritings of it whose trees have to be bit-identical; non-trivial: a rewriting that differs from the canonical text, counted by its hash; an evaluation is one such unit judged, or a case without any",
            &[API]),
        ck("C04", 200000, 20000, checks_ent::c04, X,
            "one case = one map with group data, its tree matched against a model of the hierarchy; non-trivial: more than one entity, counted by the vector of ids and groups; an evaluation is one such unit judged, or a case without any",
            &[API]),
        ck("C05", 150000, 20000, checks_ent::c05, X,
            "one case = one map whose actors' world positions are compared with the model; non-trivial: an actor, counted by position and parent; an evaluation is one such unit judged, or a case without any",
            &[API, "tolerance scales with the coordinates and the depth of nesting (single precision)"]),
        ck("C06", 150000, 20000, checks_geo::c06, X,
            "one case = one map of convex solids whose vertices and planes are known exactly; non-trivial: a brush, counted by its planes; an evaluation is one such unit judged, or a case without any",
            &[API, "tolerance scales with coordinates, single precision"]),
        ck("C07", 150000, 20000, checks_geo::c07, X,
            "one case = one map; per face the triangles have to tile the face once with outward orientation; non-trivial: a face, counted by its vertices; an evaluation is one such unit judged, or a case without any",
            &[API]),
        ck("C08", 150000, 20000, checks_geo::c08, X,
            "one case = one map; per vertex the normal is compared with the plane's or with the smoothed one; non-trivial: a brush, counted by planes and phong settings; an evaluation is one such unit judged, or a case without any",
            &[API, "smoothing is judged where the model is unambiguous (angles away from the threshold)"]),
        ck("C09", 150000, 20000, checks_geo::c09, X,
            "one case = one map; per vertex UV and tangent are compared with the texture projection; non-trivial: a textured face, counted by plane, projection and texture size; an evaluation is one such unit judged, or a case without any",
            &[API]),
        ck("C10", 120000, 20000, checks_geo::c10, X,
            "one case = one map and texture configuration; surfaces, faces left out, shared vertices and colors are compared with the model; non-trivial: a mesh, counted by content; an evaluation is one such unit judged, or a case without any",
            &[API]),
        ck("C11", 150000, 20000, checks_geo::c11, X,
            "one case = one map; collision geometry is compared with the brush solids; non-trivial: a collision shape, counted by content; an evaluation is one such unit judged, or a case without any",
            &[API]),
        ck("C12", 100000, 5000, checks_geo::c12, X,
            "one case = one worldspawn with liquid brushes and layer definitions; non-trivial: a layer node, counted by content; an evaluation is one such unit judged, or a case without any",
            &[API]),
        ck("C13", 150000, 10000, checks_ent::c13, X,
            "one case = one map with random class definitions; non-trivial: an actor, counted by class, definition and brush shape; an evaluation is one such unit judged, or a case without any",
            &[API]),
        ck("C14", 200000, 20000, checks_ent::c14, X,
            "one case = one map with random property definitions and values; non-trivial: a (key, definition, value) triple; an evaluation is one such unit judged, or a case without any",
            &[API]),
        ck("C15", 8000, 5000, checks_ent::c15, X,
            "one case = two to four maps built repeatedly, in other orders, with permuted tables and from several threads at once; non-trivial: a tree with more than 400 bytes of text, counted by content; an evaluation is one such unit judged, or a case without any",
            &[API]),
        ck("C16", 150000, 20000, checks_misc::c16, X,
            "one case = one random set of definitions written, read back by an independent reader, and saved; non-trivial: a property definition, counted by content; an evaluation is one such unit judged, or a case without any",
            &[API, "names and texts without double quotes and line breaks, which the format cannot express"]),
        ck("C17", 150000, 20000, checks_ent::c17, X,
            "one case = one class whose FGD defaults are spelled out in one map and omitted in another; non-trivial: a property definition, counted by content; an evaluation is one such unit judged, or a case without any",
            &[API]),
        ck("C18", 150000, 20000, checks_wad::c18, X,
            "one case = one generated archive read with three requests; non-trivial: a reading with at least one texture, counted by its content; an evaluation is one such unit judged, or a case without any",
            &[API, "dimensions are multiples of 8", "files up to some MB"]),
        ck("C19", 20000, 5000, checks_wad::c19, X,
            "one case = one archive read by one thread and then under four other schedules (pool size, concurrent callers, injected delays at system calls); non-trivial: a reading by more than one thread, counted by its sequence of (thread, call, position); an evaluation is one such unit judged, or a case without any",
            &[API, "the schedule is disturbed at system calls only"]),
        ck("C20", 100000, 20000, checks_wad::c20, X,
            "one case = a batch of damaged archives, each compared with a reader written from the format; non-trivial: a damaged archive, counted by bytes and levels; an evaluation is one such unit judged, or a case without any",
            &[API, "files up to some 100 kB", "memory bound 8 MB + 6 x entries x file size, measured by the allocator"]),
        ck("C21", 200000, 20000, checks_wad::c21, X,
            "one case = one archive and one palette converted in every combination; non-trivial: a texture, counted by pixels, palette and combination; an evaluation is one such unit judged, or a case without any",
            &[API]),
        ck("C22", 250000, 20000, checks_misc::c22, X,
            "one case = one pair of files compared, the printed lists checked against an independent edit-distance model; non-trivial: a pair of different files, counted by content; an evaluation is one such unit judged, or a case without any",
            &[API, "the difference is read from standard output", "files up to some 700 lines"]),
        ck("C24", 20000, 20000, checks_misc::c24, "fault_enumeration",
            "one case = one file operation run calmly, under short transfers and interruptions, and once per system call with that call failing; non-trivial: a run with a fault or disturbance, counted by operation, call and error; an evaluation is one such unit judged, or a case without any",
            &[API, "faults are injected at open, read, write and seek", "every call fails once per operation when there are at most 60 calls"]),
        ck("C25", 60000, 20000, checks_api::c25, X,
            "one case = up to thirty numbers turned into kinds and back, and every kind turned into its number; non-trivial: a number offered to a kind, counted by both; an evaluation is one such unit judged, or a case without any",
            &[API, "a number is refused by panicking, the only way these conversions have"]),
        ck("C26", 80000, 20000, checks_api::c26, X,
            "one case = a set of configuration and scene values constructed, copied and compared, a blacklist asked for similar names, or a map built with nothing but defaults; non-trivial: a set of arguments, lists or a map, counted by content; an evaluation is one such unit judged, or a case without any",
            &[API]),
        ck("C27", 12000, 20000, checks_left::c27, X,
            "one case = 32 calls of one kind, on files of their own, some of them damaged, missing or failing, watched from outside, and three more with every opened path recorded; non-trivial: a call, counted by the content of its files; an evaluation is one such unit judged, or a case without any",
            &[API, "paths are observed where the C library opens files", "memory is what the allocator has handed out, not what the system maps", "descriptors and threads as /proc lists them"]),
    ]
}

fn main() {
    let start = Instant::now();
    let args: Vec<String> = std::env::args().collect();
    let all = checks();
    let find = |id: &str| {
        all.iter().find(|c| c.id == id).unwrap_or_else(|| {
            eprintln!("no check {}", id);
            std::process::exit(2)
        })
    };
    let num = |i: usize| -> u64 { args.get(i).and_then(|s| s.parse().ok()).unwrap_or(0) };
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let code = match cmd {
        "list" => {
            for c in &all {
                println!("{}", c.id);
            }
            0
        }
        "tiny" => {
            // for interpreters: part 0..4, seed
            sut::install_panic_hook();
            match sut::guarded(|| tiny::run(num(2), num(3))) {
                Ok(Ok(s)) => println!("TINY {} ok: {}", num(2), s),
                Ok(Err(e)) | Err(e) => println!("TINY {} failed: {}", num(2), e),
            }
            0
        }
        "worker" => {
            let c = find(&args[2]);
            fw::worker(c, args[3] == "thorough", num(4), num(5), num(6), num(7));
            0
        }
        "check" => {
            let c = find(&args[2]);
            let tier = match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => "thorough",
                _ => "quick",
            };
            let seed = std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.trim().parse().ok())
                .unwrap_or(1u64);
            let mut cases = if tier == "thorough" { c.thorough } else { c.quick };
            if let Some(n) = std::env::var("QMON_CASES").ok().and_then(|s| s.parse().ok()) {
                cases = n;
            }
            let agg = fw::master(c, tier, seed, cases);
            fw::conclude(c, tier, seed, agg, start)
        }
        "replay" => {
            // exit 1 if the case violates again
            let c = find(&args[2]);
            let (seed, case) = (num(3), num(4));
            let me = std::env::current_exe().unwrap();
            let out = std::process::Command::new(me)
                .args(["worker", c.id, "quick", &seed.to_string(), &case.to_string(), "1", &(case + 1).to_string()])
                .env("RAYON_NUM_THREADS", "4")
                .output()
                .unwrap();
            let text = String::from_utf8_lossy(&out.stdout);
            println!("{}", text.replace("\\n", "\n"));
            println!("{}", out.status);
            (text.lines().any(|l| l.starts_with("V ")) || !out.status.success()) as i32
        }
        _ => {
            eprintln!("usage: qmon check|replay|list ...");
            2
        }
    };
    std::process::exit(code);
}
