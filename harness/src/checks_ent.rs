//! Oracles for map text, entities, their hierarchy, placement and properties.
use crate::ensure;
use crate::crowd;
use crate::fw::*;
use crate::geom;
use crate::hostile;
use crate::mapgen::*;
use crate::rng::{hash_bytes, hash_str, mix, Rng};
use crate::scene::*;
use crate::sut::{self, Cfg, Col, Def, Et, Forge, Layer, Pat, RunOut, Vis};
use crate::vocab;
use crate::world::{self, WOpts, World};
use quarchitect::game_data::forge::{Choice, PropertyData};
use quarchitect::game_data::Property;
use quarchitect::scene_tree::*;
use quarchitect::{Color, Vector3};
use std::collections::BTreeMap;

fn put(ctx: &mut Ctx, bytes: &[u8], cfg: &Cfg) {
    ctx.inputs.clear();
    ctx.input("input.map", bytes);
    ctx.input("config.txt", format!("{:#?}", cfg).as_bytes());
}

fn outcome(o: &RunOut) -> &'static str {
    match o {
        RunOut::Tree(_) => "a tree",
        RunOut::Error(_) => "an error",
        RunOut::Panic(_) => "a panic",
    }
}

/// Groups nested (or in a circle) thousands deep, built on a thread with the
/// standard stack; everything here walks the tree without recursion.
fn deep_groups(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let n = match r.below(3) {
        0 => r.range(200, 1200),
        1 => r.range(1200, 3000),
        _ => r.range(3000, 7000),
    } as usize;
    let circle = r.chance(1, 6);
    let cfg = Cfg {
        forge: vec![Forge { class_name: "n".into(), props: vec![("uid".into(), PropertyData::Integer(0))] }],
        ..Cfg::default()
    };
    // the rank of every entity within the chain, in file order
    let mut rank: Vec<usize> = (0..n).collect();
    match r.below(3) {
        0 => (),
        1 => rank.reverse(),
        _ => r.shuffle(&mut rank),
    }
    let side = *r.pick(&[0u32, 0, 2, 20]);
    let mut up: Vec<Option<usize>> = vec![None; n];
    let mut at: Vec<[f64; 3]> = vec![[0.0; 3]; n];
    let mut text = String::from("{\n\"classname\" \"worldspawn\"\n}\n");
    for (i, k) in rank.iter().enumerate() {
        let g = match *k {
            0 if circle => Some(n - 1),
            0 => None,
            // mostly the entity one rank above, sometimes one further up
            k if side > 0 && r.chance(1, side) => Some(r.below(k)),
            k => Some(k - 1),
        };
        up[*k] = g;
        text += "{\n\"classname\" \"n\"\n";
        text += &format!("\"uid\" \"{}\"\n\"_tb_id\" \"{}\"\n", i, k);
        if let Some(g) = g {
            text += &format!("\"_tb_group\" \"{}\"\n", g);
        }
        if r.chance(2, 3) {
            at[*k] = [r.range(-4096, 4096) as f64, r.range(-4096, 4096) as f64, r.range(-99, 99) as f64];
            text += &format!("\"origin\" \"{} {} {}\"\n", at[*k][0], at[*k][1], at[*k][2]);
        }
        text += "}\n";
    }
    put(ctx, text.as_bytes(), &cfg);
    let (t, c) = (text.clone(), cfg.clone());
    let tree = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || sut::run_ok(&t, &c))
        .unwrap()
        .join()
        .map_err(|_| "the build panicked".to_string())??;
    let mut seen = vec![false; n];
    let mut found = 0;
    let mut deepest = 0;
    let mut todo: Vec<(&SceneTreeNode, Option<usize>, [f64; 3], usize)> = tree.iter().skip(1).map(|t| (t, None, [0.0; 3], 1)).collect();
    while let Some((node, parent, base, depth)) = todo.pop() {
        let (a, actors, _) = match actor_parts(node) {
            Some(x) => x,
            None => return Err("a node that is no actor among the actors".into()),
        };
        let u = match uid_of(a) {
            Some(u) if (0..n as i64).contains(&u) && !seen[u as usize] => u as usize,
            u => return Err(format!("the actor with uid {:?} is unknown or appears twice", u).into()),
        };
        seen[u] = true;
        found += 1;
        deepest = deepest.max(depth);
        let k = rank[u];
        if circle {
            ensure!(parent.is_none() || parent == up[k], "entity {} is placed under {:?}, its group is {:?}", k, parent, up[k]);
        } else {
            ensure!(parent == up[k], "entity {} is placed under {:?}, its group is {:?}", k, parent, up[k]);
        }
        let w = geom::add(base, sut::v3(node.origin));
        ensure!(geom::dist(w, at[k]) <= 1e-6, "entity {}, {} deep: its world position is {:?}, expected {:?}", k, depth, w, at[k]);
        let mut last = 0;
        for c in actors {
            let cu = actor_parts(c).and_then(|x| uid_of(x.0)).unwrap_or(-1);
            ensure!(cu >= last, "the children of entity {} are not in file order", k);
            last = cu;
            todo.push((c, Some(k), w, depth + 1));
        }
    }
    ensure!(found == n, "the map has {} grouped entities, the tree has {}", n, found);
    ctx.count("groups nested hundreds or thousands deep", 1);
    ctx.peak("nesting depth", deepest as u64);
    Ok(())
}

// ================================================================= C01

fn sane_tree(n: &SceneTreeNode) -> Result<(), String> {
    match &n.data {
        SceneTreeType::Actor(_, ch) => ch.iter().try_for_each(sane_tree),
        SceneTreeType::VisualGeometry(VisualGeometry::Mesh(m)) => m.surfaces.iter().try_for_each(|s| surface_shape(0, s)),
        SceneTreeType::CollisionGeometry(CollisionGeometry::Concave(v)) => v.iter().try_for_each(|s| {
            if s.indices.len() % 3 != 0 || s.indices.iter().any(|i| *i >= s.vertices.len()) {
                return Err("collision indices out of range".to_string());
            }
            Ok(())
        }),
        _ => Ok(()),
    }
}

pub fn c01(ctx: &mut Ctx, r: &mut Rng) -> Res {
    if r.chance(1, 1500) {
        return deep_groups(ctx, r);
    }
    let cfg = hostile::hostile_cfg(r);
    let kind = r.below(14);
    let (what, bytes): (&str, Vec<u8>) = match kind {
        0 => ("random bytes", (0..r.below(400)).map(|_| r.below(256) as u8).collect()),
        1 => {
            let a = b"{}\"()/ \n\r\t019.-eclassnameworldspawn";
            ("random map characters", (0..r.below(600)).map(|_| *r.pick(a)).collect())
        }
        2 | 3 | 4 => ("token soup", hostile::soup(r)),
        5 | 6 | 7 | 8 => ("mutated map", hostile::mutated(r)),
        9 | 10 => ("extreme geometry", hostile::extreme_map(r)),
        12 | 13 => ("edge values", hostile::edge_map(r)),
        _ => {
            let mut m = GMap::default();
            let n = { let hi = if r.chance(1, 8) { 120 } else { 12 }; r.range(1, hi) };
            for i in 0..n {
                let mut e = GEntity::default();
                e.set("classname", if i == 0 { "worldspawn" } else { *r.pick(&["cls_0", "func_group", "x"]) });
                m.entities.push(e);
            }
            if r.chance(1, 3) {
                // one long chain
                for i in 1..m.entities.len() {
                    m.entities[i].set("_tb_id", &i.to_string());
                    m.entities[i].set("_tb_group", &(i - 1).to_string());
                }
            } else {
                hostile::hostile_groups(r, &mut m);
            }
            ("hostile groups", render(r, &m, &Style::plain()).into_bytes())
        }
    };
    put(ctx, &bytes, &cfg);
    ctx.sample(|| format!("{}: {}", what, String::from_utf8_lossy(&bytes)));
    let out = if kind == 0 && r.chance(1, 10) {
        // paths that cannot be read as files
        let p = match r.below(4) {
            0 => "/nonexistent/x.map".to_string(),
            1 => sut::tmp_dir().to_string_lossy().into_owned(),
            2 => String::new(),
            _ => "a\0b".to_string(),
        };
        let o = sut::run_path(&p, &cfg);
        ensure!(
            matches!(o, RunOut::Error(_)),
            "building from the unreadable path {:?} gives {}",
            p, outcome(&o)
        );
        o
    } else {
        sut::run_bytes(&bytes, &cfg)
    };
    match out {
        RunOut::Tree(t) => {
            t.iter()
                .try_for_each(sane_tree)
                .map_err(|e| format!("{}: {}", what, e))?;
            ctx.count(&format!("{}: built", what), 1);
        }
        RunOut::Error(_) => ctx.count(&format!("{}: rejected", what), 1),
        RunOut::Panic(p) => return Err(format!("{}: panic: {}", what, p).into()),
    }
    ctx.peak("input bytes", bytes.len() as u64);
    if bytes.len() > 20 {
        ctx.fp(hash_bytes(&bytes));
    }
    Ok(())
}

// ================================================================= C02

fn expect_err(ctx: &mut Ctx, what: &str, bytes: &[u8], cfg: &Cfg) -> Res {
    match sut::run_bytes(bytes, cfg) {
        RunOut::Error(_) => {
            ctx.count(what, 1);
            ctx.fp(hash_bytes(bytes));
            Ok(())
        }
        o => {
            put(ctx, bytes, cfg);
            let d = match o {
                RunOut::Panic(p) => format!("a panic ({})", p),
                _ => "a scene tree".to_string(),
            };
            Err(format!("{}: must be rejected with an error, but gives {}", what, d).into())
        }
    }
}

/// All of a few places, or the last and some of the others of many.
fn thin(r: &mut Rng, mut at: Vec<usize>) -> Vec<usize> {
    if at.len() > 40 {
        let tail = at.split_off(at.len() - 6);
        r.shuffle(&mut at);
        at.truncate(30);
        at.extend(tail);
    }
    at
}

pub fn c02(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let many = r.chance(1, 8);
    let o = WOpts {
        ents: if many { (1, if r.chance(1, 20) { 300 } else { 40 }) } else { (1, 4) },
        brushes: (0, 2),
        phong: r.chance(1, 4),
        groups: r.chance(1, 4),
        origins: r.chance(1, 4),
        oddities: r.chance(1, 4),
        ..WOpts::default()
    };
    let w = world::gen(r, &o);
    let plain = Style {
        comments: r.chance(1, 2),
        crlf: r.chance(1, 4),
        unrecognised: r.chance(1, 4),
        trailers: r.chance(1, 6),
        numeric_noise: r.chance(1, 4),
        ..Style::plain()
    };
    let lines = render_lines(r, &w.map, &plain);
    let text = join_lines(&lines, &plain);
    put(ctx, text.as_bytes(), &w.cfg);
    ctx.sample(|| text.clone());
    let tree = sut::run_ok(&text, &w.cfg)?;
    ensure!(!tree.is_empty(), "well-formed map gives an empty tree");
    ctx.count("well-formed maps accepted", 1);
    let nl = if plain.crlf { "\r\n" } else { "\n" };
    let join = |l: &[String]| l.join(nl).into_bytes();
    let cfg = &w.cfg;
    // where each line stands
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum At {
        File,
        Entity,
        Brush,
    }
    let mut at = vec![];
    let mut d = 0;
    for l in &lines {
        at.push(match d {
            0 => At::File,
            1 => At::Entity,
            _ => At::Brush,
        });
        if l.starts_with('{') {
            d += 1;
        }
        if l.starts_with('}') {
            d -= 1;
        }
    }
    let of = |p: &dyn Fn(usize) -> bool| -> Vec<usize> { (0..lines.len()).filter(|i| p(*i)).collect() };
    match r.below(10) {
        0 | 1 => {
            // cut anywhere inside an entity: every byte for small maps
            let b = text.as_bytes();
            let mut cuts = vec![];
            let (mut pos, mut depth) = (0usize, 0);
            for l in &lines {
                let n = l.len();
                if depth > 0 {
                    // up to and including the start of this line; a line that
                    // closes the entity is not yet there
                    let last_close = depth == 1 && l.starts_with('}');
                    cuts.extend(pos..=if last_close { pos } else { pos + n });
                } else if l.starts_with('{') {
                    cuts.push(pos + 1);
                }
                if l.starts_with('{') {
                    depth += 1;
                }
                if l.starts_with('}') {
                    depth -= 1;
                }
                pos += n + nl.len();
            }
            for c in thin(r, cuts) {
                expect_err(ctx, "map cut inside an entity", &b[..c], cfg)?;
            }
        }
        2 => {
            for i in thin(r, of(&|i| lines[i].starts_with('{') || lines[i].starts_with('}'))) {
                let mut l = lines.clone();
                let brace = l.remove(i);
                expect_err(ctx, "brace removed", &join(&l), cfg)?;
                let mut l = lines.clone();
                l.insert(i, brace);
                expect_err(ctx, "brace doubled", &join(&l), cfg)?;
            }
            let i = r.below(lines.len() + 1);
            let mut l = lines.clone();
            l.insert(i, (*r.pick(&["{", "}"])).into());
            expect_err(ctx, "brace added", &join(&l), cfg)?;
        }
        3 => {
            // a plane with a component missing or unreadable
            for i in thin(r, of(&|i| lines[i].starts_with('('))) {
                if !r.chance(1, 3) {
                    continue;
                }
                let t: Vec<&str> = lines[i].split_whitespace().collect();
                let valve = t[16] == "[";
                let bare = t.len() == if valve { 31 } else { 21 };
                let k = r.below(t.len());
                if bare {
                    let mut u = t.clone();
                    u.remove(k);
                    let mut l = lines.clone();
                    l[i] = u.join(" ");
                    if !l[i].starts_with('(') {
                        l[i].insert_str(0, "(");
                    }
                    if k > 0 {
                        expect_err(ctx, "plane component missing", &join(&l), cfg)?;
                    }
                    let mut l = lines.clone();
                    l[i] = t[..r.range(1, t.len() as i64 - 1) as usize].join(" ");
                    expect_err(ctx, "plane cut short", &join(&l), cfg)?;
                    let mut l = lines.clone();
                    for _ in 0..*r.pick(&[2, 4, 5, 7, 9]) {
                        l[i].push_str(" 1");
                    }
                    expect_err(ctx, "plane with an impossible number of surface flags", &join(&l), cfg)?;
                }
                let nums: Vec<usize> = (0..t.len()).filter(|k| t[*k].parse::<f32>().is_ok() && *k != 15).collect();
                let mut u = t.clone();
                let k = *r.pick(&nums);
                u[k] = *r.pick(&["x1", "1,5", "0x10", "--1", "1e", "abc", "1.2.3", "\u{661}", "#", "1-"]);
                let mut l = lines.clone();
                l[i] = u.join(" ");
                expect_err(ctx, "plane with an unreadable number", &join(&l), cfg)?;
            }
        }
        4 => {
            for i in thin(r, of(&|i| at[i] == At::Entity && lines[i].starts_with('"'))) {
                let mut l = lines.clone();
                let key = lines[i].split('"').nth(1).unwrap_or("k").to_string();
                l[i] = match r.below(3) {
                    0 => format!("\"{}\"", key),
                    1 => format!("\"{}", key),
                    _ => format!("\"{}\" value", key),
                };
                expect_err(ctx, "property without a value", &join(&l), cfg)?;
            }
        }
        5 => {
            let stray = |r: &mut Rng| {
                let (k, vs) = *r.pick(&vocab::CHATTER);
                let (k, v) = match r.below(6) {
                    0 => ("k", "v"),
                    1 => (*r.pick(&["classname", "origin", "_phong", "_phong_angle", "_tb_id", "_tb_group", "_tb_name", "_tb_type", ""]), *r.pick(&["1", "worldspawn", ""])),
                    _ => (k, *r.pick(vs)),
                };
                format!("\"{}\" \"{}\"", k, v)
            };
            let files = of(&|i| at[i] == At::File);
            let end = r.chance(1, 4);
            let i = if end { lines.len() } else { *r.pick(&files) };
            let mut l = lines.clone();
            l.insert(i, stray(r));
            expect_err(ctx, "property outside any entity", &join(&l), cfg)?;
            let pl = format!(
                "( 0 0 0 ) ( 0 1 0 ) ( 1 0 0 ) {} 0 0 0 1 1",
                if r.chance(1, 2) { "t" } else { *r.pick(&vocab::TEXTURES) }
            );
            let pl = pl.as_str();
            let mut l = lines.clone();
            l.insert(i, pl.into());
            expect_err(ctx, "plane outside any entity", &join(&l), cfg)?;
            let e = of(&|i| at[i] == At::Entity);
            let i = *r.pick(&e);
            let mut l = lines.clone();
            l.insert(i, pl.into());
            expect_err(ctx, "plane outside any brush", &join(&l), cfg)?;
            let b = of(&|i| at[i] == At::Brush);
            if !b.is_empty() {
                let i = *r.pick(&b);
                let mut l = lines.clone();
                l.insert(i, stray(r));
                expect_err(ctx, "property inside a brush", &join(&l), cfg)?;
                let mut l = lines.clone();
                l.insert(i, "{".into());
                l.insert(i + 1, "}".into());
                expect_err(ctx, "brace pair inside a brush", &join(&l), cfg)?;
            }
        }
        6 => {
            for i in thin(r, of(&|i| lines[i].starts_with("\"classname\""))) {
                let mut l = lines.clone();
                l.remove(i);
                expect_err(ctx, "entity without a classname", &join(&l), cfg)?;
            }
            let i = *r.pick(&of(&|i| at[i] == At::File && !lines[i].starts_with('}')));
            let mut l = lines.clone();
            l.insert(i, "{".into());
            l.insert(i + 1, "}".into());
            expect_err(ctx, "entity without anything", &join(&l), cfg)?;
        }
        7 => {
            let mut m = w.map.clone();
            let ws = m.entities.iter().position(|e| e.get("classname") == Some("worldspawn")).unwrap();
            let copy = m.entities[ws].clone();
            let ins = r.below(m.entities.len() + 1);
            m.entities.insert(ins, copy);
            expect_err(ctx, "two worldspawns", render(r, &m, &plain).as_bytes(), cfg)?;
            let mut m = w.map.clone();
            m.entities.remove(ws);
            expect_err(ctx, "no worldspawn", render(r, &m, &plain).as_bytes(), cfg)?;
            let mut m = w.map.clone();
            m.entities[ws].set("classname", *r.pick(&["Worldspawn", "worldspawn2", "world", ""]));
            expect_err(ctx, "no worldspawn", render(r, &m, &plain).as_bytes(), cfg)?;
            expect_err(ctx, "no worldspawn", b"", cfg)?;
        }
        8 => {
            let mut b = text.clone().into_bytes();
            let i = r.below(b.len());
            b.insert(i, *r.pick(&[0xff, 0xfe, 0xc0, 0x80]));
            if std::str::from_utf8(&b).is_err() {
                expect_err(ctx, "not UTF-8", &b, cfg)?;
            }
            let p = format!("{}/missing.map", sut::tmp_dir().display());
            let o = sut::run_path(&p, cfg);
            ensure!(matches!(o, RunOut::Error(_)), "missing map file gives {}", outcome(&o));
            ctx.count("missing files", 1);
        }
        _ => {
            // swapping the order of an entity's opening and closing brace
            let mut l = lines.clone();
            let opens = of(&|i| at[i] == At::File && lines[i].starts_with('{'));
            let i = *r.pick(&opens);
            l[i] = "}".into();
            expect_err(ctx, "entity opened by a closing brace", &join(&l), cfg)?;
            let closes = of(&|i| lines[i].starts_with('}'));
            let i = *r.pick(&closes);
            let mut l = lines.clone();
            l[i] = "{".into();
            expect_err(ctx, "scope closed by an opening brace", &join(&l), cfg)?;
        }
    }
    Ok(())
}

// ================================================================= C03

/// Text as it may stand between two quotes of a map file.
fn verbatim(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(7) {
        s += match r.below(22) {
            0 | 1 => " ",
            2 => "  ",
            3 => "//",
            4 => " //",
            5 => "#",
            6 => ";",
            7 => "{",
            8 => "}",
            9 => "(",
            10 => ")",
            11 => "[",
            12 => "\\",
            13 => "\\n",
            14 => "\t",
            15 => "\u{e9}",
            16 => "\u{4e16}\u{1f600}",
            17 => "'",
            18 => "/",
            19 => ",",
            _ => *r.pick(&["x", "A", "hello", "-1", "0", "1.5", "=", "%20", "\u{a0}", "\u{b}", "\u{feff}", "$", "*", "&amp;", "worldspawn", "origin"]),
        };
    }
    if r.chance(1, 60) {
        s += &"long ".repeat(r.range(50, 2000) as usize);
    }
    s
}

/// Another spelling of a name that differs in letter case only.
fn recase(r: &mut Rng, s: &str) -> String {
    let o: String = s
        .chars()
        .map(|c| {
            let v: String = match r.below(3) {
                0 => c.to_uppercase().collect(),
                1 => c.to_lowercase().collect(),
                _ => c.to_string(),
            };
            v
        })
        .collect();
    // (letters whose cases are not one to one)
    if o.to_lowercase() == s.to_lowercase() {
        o
    } else {
        s.to_string()
    }
}

pub fn first_diff(a: &str, b: &str) -> String {
    for (i, (x, y)) in a.lines().zip(b.lines()).enumerate() {
        if x != y {
            return format!("line {}: {} | {}", i, x.trim(), y.trim());
        }
    }
    format!("{} against {} lines", a.lines().count(), b.lines().count())
}

pub fn c03(ctx: &mut Ctx, r: &mut Rng) -> Res {
    if crowd::called(r, 800) {
        return crowd::rewritten(ctx, r);
    }
    let o = WOpts {
        ents: (1, 5),
        brushes: (0, 3),
        phong: r.chance(1, 3),
        groups: r.chance(1, 3),
        dangling: true,
        origins: r.chance(1, 2),
        oddities: r.chance(1, 4),
        blacklist: r.chance(1, 3),
        mixed_defs: r.chance(1, 3),
        vis: None,
        col: None,
        extra: Some(*r.pick(&[0, 0, 3])),
        ..WOpts::default()
    };
    let mut w = world::gen(r, &o);
    // keys and values that have to arrive exactly as written
    let mut noted: Vec<(usize, String, String)> = vec![];
    if r.chance(1, 2) {
        let keys: Vec<String> = (0..r.range(1, 3)).map(|i| format!("{}{}", verbatim(r), i)).collect();
        for (i, e) in w.map.entities.iter_mut().enumerate() {
            for k in &keys {
                if r.chance(1, 2) {
                    let v = verbatim(r);
                    e.set(k, &v);
                    noted.push((i, k.clone(), v));
                }
            }
        }
        for f in w.cfg.forge.iter_mut() {
            for k in &keys {
                f.props.push((k.clone(), PropertyData::String("d".into())));
            }
        }
    }
    let base = render(r, &w.map, &Style::plain());
    let tree = sut::run_ok(&base, &w.cfg)?;
    let want = sut::dump_tree(&tree);
    if !noted.is_empty() {
        put(ctx, base.as_bytes(), &w.cfg);
        let v = view(&w.map, &tree, false)?;
        for ev in &v.ents {
            for (_, k, x) in noted.iter().filter(|n| n.0 == ev.ent) {
                let got = ev.actor.properties.0.get(k).map(sut::dump_property);
                let exp = sut::dump_property(&Property::String(x.clone()));
                ensure!(
                    got.as_ref() == Some(&exp),
                    "entity {}: the key {:?} with the value {:?} arrives as {:?}",
                    ev.ent, k, x, got
                );
                ctx.count("keys and values compared verbatim", 1);
                ctx.fp(hash_str(&format!("{}={}", k, x)));
            }
        }
    }
    for _ in 0..3 {
        let mut m = w.map.clone();
        let mut did = vec![];
        if r.chance(1, 2) {
            for e in m.entities.iter_mut() {
                let mut ks: Vec<&String> = e.props.iter().map(|p| &p.0).collect();
                ks.sort();
                if ks.windows(2).all(|k| k[0] != k[1]) {
                    r.shuffle(&mut e.props);
                    did.push("property order");
                }
            }
        }
        if r.chance(1, 2) {
            did.push("texture case");
            for e in m.entities.iter_mut() {
                for b in e.brushes.iter_mut() {
                    for p in b.planes.iter_mut() {
                        p.texture = recase(r, &p.texture);
                    }
                }
            }
        }
        if o.extra == Some(0) && r.chance(1, 2) {
            did.push("surface flags");
            let k = r.range(1, 2) as usize;
            for e in m.entities.iter_mut() {
                for b in e.brushes.iter_mut() {
                    for p in b.planes.iter_mut() {
                        if r.chance(3, 4) {
                            p.extra = gen_surface(r, p.plane().n, Dialect::Mixed, k).3;
                        }
                    }
                }
            }
        }
        let st = Style::random(r);
        let text = render(r, &m, &st);
        put(ctx, text.as_bytes(), &w.cfg);
        ctx.input("plain.map", base.as_bytes());
        ctx.sample(|| text.clone());
        let t2 = sut::run_ok(&text, &w.cfg).map_err(|e| format!("{} (rewritten with {:?} and {:?})", e, st, did))?;
        let got = sut::dump_tree(&t2);
        ensure!(
            got == want,
            "the same map written with {:?} and {:?} builds a different tree: {}",
            st, did, first_diff(&want, &got)
        );
        ctx.count("rewritten maps compared", 1);
        if st.crlf {
            ctx.count("with CRLF", 1);
        }
        if st.numeric_noise {
            ctx.count("with other number notation", 1);
        }
        if st.props_after {
            ctx.count("with properties after brushes", 1);
        }
        for d in ["property order", "texture case", "surface flags"] {
            if did.contains(&d) {
                ctx.count(&format!("with other {}", d), 1);
            }
        }
        if text != base {
            ctx.fp(hash_str(&text));
        }
    }
    Ok(())
}

// ================================================================= C04

fn uid_of(a: &Actor) -> Option<i64> {
    match a.properties.0.get("uid") {
        Some(Property::Integer(i)) => Some(*i as i64),
        _ => None,
    }
}

fn edges(n: &SceneTreeNode, parent: Option<i64>, out: &mut Vec<(Option<i64>, i64)>) -> Result<(), String> {
    if let Some((a, actors, _)) = actor_parts(n) {
        let u = uid_of(a).ok_or_else(|| format!("actor {} without its uid", a.name))?;
        out.push((parent, u));
        for c in actors {
            edges(c, Some(u), out)?;
        }
    }
    Ok(())
}

fn count_actors(n: &SceneTreeNode) -> usize {
    match actor_parts(n) {
        Some((_, a, _)) => 1 + a.into_iter().map(count_actors).sum::<usize>(),
        None => 0,
    }
}

fn tree_depth(n: &SceneTreeNode) -> u64 {
    match actor_parts(n) {
        Some((_, a, _)) => 1 + a.into_iter().map(tree_depth).max().unwrap_or(0),
        None => 0,
    }
}

pub fn c04(ctx: &mut Ctx, r: &mut Rng) -> Res {
    if r.chance(1, 1000) {
        return deep_groups(ctx, r);
    }
    let hostile = r.chance(1, 3);
    let big = r.chance(1, 10);
    let crowd = crowd::called(r, 400);
    let o = WOpts {
        ents: if crowd { (258, 1400) } else { (1, if big { 40 } else { 9 }) },
        brushes: (0, if crowd || r.chance(1, 2) { 0 } else { 1 }),
        groups: !hostile,
        dangling: true,
        origins: true,
        mixed_defs: r.chance(1, 2),
        ..WOpts::default()
    };
    let mut w = world::gen(r, &o);
    let n = w.map.entities.len();
    if hostile {
        hostile::hostile_groups(r, &mut w.map);
    } else if r.chance(1, 6) && n > 2 && n < 500 {
        // a chain as deep as the map allows
        let ws = w.map.entities.iter().position(|e| e.get("classname") == Some("worldspawn")).unwrap();
        let mut ids: Vec<usize> = (0..n).filter(|i| *i != ws).collect();
        r.shuffle(&mut ids);
        for (k, i) in ids.iter().enumerate() {
            w.map.entities[*i].props.retain(|p| !p.0.starts_with("_tb_"));
            w.map.entities[*i].set("_tb_id", &k.to_string());
            if k > 0 {
                w.map.entities[*i].set("_tb_group", &(k - 1).to_string());
            }
        }
        w.map.entities[ws].props.retain(|p| !p.0.starts_with("_tb_"));
    }
    let text = render(r, &w.map, &Style::plain());
    put(ctx, text.as_bytes(), &w.cfg);
    ctx.sample(|| text.clone());
    let tree = sut::run_ok(&text, &w.cfg)?;
    let total: usize = tree.iter().map(count_actors).sum();
    ensure!(
        total == n,
        "the map has {} entities, the tree has {} actors",
        n, total
    );
    let first = actor_parts(&tree[0]).map(|a| a.0.name.clone());
    ensure!(
        first.as_deref() == Some("worldspawn"),
        "the first node is {:?}, not worldspawn",
        first
    );
    let shape: Vec<String> = w
        .map
        .entities
        .iter()
        .map(|e| format!("{:?}/{:?}", e.get("_tb_id"), e.get("_tb_group")))
        .collect();
    ctx.peak("nesting depth", tree.iter().map(tree_depth).max().unwrap_or(0));
    if n > 1 {
        ctx.fp(hash_str(&shape.join(",")));
    }
    if !hostile {
        view(&w.map, &tree, false)?;
        ctx.count("hierarchies compared", 1);
        let ps = parents(&w.map);
        let nested = ps.iter().filter(|p| p.is_some()).count();
        if crowd {
            ctx.count("maps of hundreds of entities", 1);
        }
        ctx.count("entities inside a group", nested as u64);
        ctx.count(
            "references to a missing group",
            (0..n)
                .filter(|i| w.map.entities[*i].get("_tb_group").is_some() && ps[*i].is_none())
                .count() as u64,
        );
        return Ok(());
    }
    let mut es = vec![];
    for t in &tree {
        edges(t, None, &mut es)?;
    }
    let ent = |u: i64| (u - 1000) as usize;
    let mut seen = vec![0; n];
    for (p, u) in &es {
        ensure!(*u >= 1000 && ent(*u) < n, "an actor carries the unknown uid {}", u);
        seen[ent(*u)] += 1;
        if let Some(p) = p {
            let g = w.map.entities[ent(*u)].get("_tb_group");
            let id = w.map.entities[ent(*p)].get("_tb_id");
            ensure!(
                g.is_some() && g == id,
                "entity {} (group {:?}) is placed inside entity {} (id {:?})",
                ent(*u), g, ent(*p), id
            );
        }
    }
    for (i, s) in seen.iter().enumerate() {
        ensure!(*s == 1, "entity {} appears {} times in the tree", i, s);
    }
    // an entity that can be placed in its group must be: no cycle is reachable from it
    let m = &w.map;
    let ws = m.entities.iter().position(|e| e.get("classname") == Some("worldspawn")).unwrap();
    let cands = |i: usize| -> Vec<usize> {
        if i == ws {
            return vec![];
        }
        match m.entities[i].get("_tb_group") {
            Some(g) => (0..n).filter(|j| m.entities[*j].get("_tb_id") == Some(g)).collect(),
            None => vec![],
        }
    };
    fn cyclic(i: usize, path: &mut Vec<usize>, cands: &dyn Fn(usize) -> Vec<usize>, done: &mut Vec<Option<bool>>) -> bool {
        if let Some(d) = done[i] {
            return d;
        }
        if path.contains(&i) {
            return true;
        }
        path.push(i);
        let c = cands(i).into_iter().any(|j| cyclic(j, path, cands, done));
        path.pop();
        done[i] = Some(c);
        c
    }
    let mut done = vec![None; n];
    for i in 0..n {
        let c = cands(i);
        if c.is_empty() {
            let (p, _) = es.iter().find(|(_, u)| ent(*u) == i).unwrap();
            ensure!(p.is_none(), "entity {} belongs to no group but is nested", i);
        } else if !cyclic(i, &mut vec![], &cands, &mut done) {
            let (p, _) = es.iter().find(|(_, u)| ent(*u) == i).unwrap();
            ensure!(
                p.map_or(false, |p| c.contains(&ent(p))),
                "entity {} is not placed inside its group {:?}",
                i, m.entities[i].get("_tb_group")
            );
            ctx.count("entities inside a repeated group id", 1);
        } else {
            ctx.count("entities of cyclic groups", 1);
        }
    }
    ctx.count("hostile hierarchies", 1);
    Ok(())
}

// ================================================================= C05

pub fn c05(ctx: &mut Ctx, r: &mut Rng) -> Res {
    if r.chance(1, 1500) {
        return deep_groups(ctx, r);
    }
    let crowd = crowd::called(r, 400);
    let o = WOpts {
        ents: if crowd { (258, 1400) } else { (1, 7) },
        brushes: (0, if crowd { 1 } else { 3 }),
        groups: r.chance(3, 4),
        dangling: r.chance(1, 2),
        origins: r.chance(2, 3),
        reach: *r.pick(&[512.0, 2048.0, 8192.0]),
        oddities: r.chance(1, 3),
        redundant: r.chance(1, 3),
        missing_tex: *r.pick(&[0, 8]),
        mixed_defs: r.chance(1, 3),
        blacklist: r.chance(1, 4),
        require_simple: r.chance(1, 2),
        vis: None,
        col: None,
        ..WOpts::default()
    };
    let mut w = world::gen(r, &o);
    let ws = w.map.entities.iter().position(|e| e.get("classname") == Some("worldspawn")).unwrap();
    if r.chance(1, 10) {
        let s: Vec<String> = (0..3)
            .map(|_| {
                let x = r.range(-2048, 2048) as f32 / *r.pick(&[1.0, 2.0, 8.0]);
                vocab::spell(r, x)
            })
            .collect();
        w.map.entities[ws].set("origin", &s.join(" "));
    }
    let text = render(r, &w.map, &Style::plain());
    put(ctx, text.as_bytes(), &w.cfg);
    ctx.sample(|| text.clone());
    let tree = sut::run_ok(&text, &w.cfg)?;
    let v = view(&w.map, &tree, false)?;
    for ev in &v.ents {
        let e = &w.map.entities[ev.ent];
        ensure!(geom::finite(ev.world), "entity {}: pivot {:?}", ev.ent, ev.world);
        let mut reach = mag(ev.world);
        let mut p = ev.parent;
        while let Some(k) = p {
            let pv = v.of(k);
            reach = reach.max(mag(pv.world));
            p = pv.parent;
        }
        let slack = 4.0 * pos_tol(reach);
        match pivot(e) {
            Some(x) => {
                // an explicit origin is copied, up to the rounding of the chain of offsets
                let tol = if e.get("origin").is_some() { 1e-3 + 4e-6 * reach.max(mag(x)) } else { slack };
                ensure!(
                    geom::dist(ev.world, x) <= tol,
                    "entity {} (origin {:?}): its world position is {:?}, expected {:?}",
                    ev.ent, e.get("origin"), ev.world, x
                );
                ctx.count(
                    if e.get("origin").is_some() {
                        "explicit origins"
                    } else if e.brushes.is_empty() {
                        "no brushes"
                    } else {
                        "centers of brushes"
                    },
                    1,
                );
                ctx.fp(mix(hash_str(&format!("{:?}", x)), ev.parent.map_or(0, |p| p as u64 + 1)));
            }
            None => {
                if let Some((lo, hi)) = bounds(e) {
                    if e.brushes.iter().all(|b| b.reff.is_some() || b.oddity.is_some()) {
                        ensure!(
                            (0..3).all(|k| ev.world[k] >= lo[k] - slack && ev.world[k] <= hi[k] + slack),
                            "entity {}: its pivot {:?} is outside its brushes {:?}..{:?}",
                            ev.ent, ev.world, lo, hi
                        );
                        ctx.count("pivots inside bounds", 1);
                    }
                }
            }
        }
        // geometry children carry the pivot, so that absolute vertices can be localised
        for (what, n) in ev.vis.iter().map(|x| ("visual", x.0)).chain(ev.col.iter().map(|x| ("collision", x.0))) {
            let g = sut::v3(n.origin);
            ensure!(
                geom::dist(g, ev.world) <= slack,
                "entity {}: {} geometry has origin {:?}, the entity is at {:?}",
                ev.ent, what, g, ev.world
            );
            ctx.count("geometry origins", 1);
        }
        if ev.parent.is_some() {
            ctx.count("nested pivots", 1);
        }
    }
    Ok(())
}

// ================================================================= C13

pub fn c13(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let names = [
        "light", "Light", "light_spot", "func_door", "func", "func_door_rotating", "worldspawn", "info_player_start", "info", "x", "l",
        "\u{e9}tage", "with space", "", "func_group", "func_wall", "func_detail", "func_illusionary", "trigger_once", "trigger_hurt", "info_null",
        "info_notnull", "misc_model", "light_torch", "Worldspawn", "layer", "group", "_tb_group", "default", "*", "none", "null", "0",
    ];
    let mut names: Vec<String> = names.iter().map(|n| n.to_string()).collect();
    for _ in 0..r.below(9) {
        let n = r.pick(&names[..]).clone();
        let n = if r.chance(1, 3) { "worldspawn".to_string() } else { n };
        let n = vocab::near_name(r, &n);
        if !names.contains(&n) {
            names.push(n);
        }
    }
    let few = if r.chance(1, 2) { r.range(3, 7) as usize } else { names.len() };
    let names = {
        // some maps use only names that are alike
        let k = names.len() - few;
        let mut v = names.split_off(k);
        if !v.iter().any(|n| n == "worldspawn") {
            v.push("worldspawn".into());
        }
        v
    };
    let o = WOpts {
        ents: (1, if r.chance(1, 4) { 14 } else { 7 }),
        brushes: (0, 2),
        origins: true,
        groups: r.chance(1, 2),
        ..WOpts::default()
    };
    let mut w = world::gen(r, &o);
    if r.chance(1, 2) {
        for e in w.map.entities.iter_mut() {
            vocab::chatter(r, e, &|_| false);
        }
    }
    for e in w.map.entities.iter_mut() {
        if e.get("classname") != Some("worldspawn") {
            let n = loop {
                let n = r.pick(&names).clone();
                if n != "worldspawn" {
                    break n;
                }
            };
            e.props.retain(|p| p.0 != "classname");
            let at = r.below(e.props.len() + 1);
            e.props.insert(at, ("classname".into(), n));
        }
    }
    w.cfg.defs.clear();
    w.cfg.forge.clear();
    for n in &names {
        w.cfg.forge.push(Forge { class_name: n.clone(), props: vec![("uid".into(), PropertyData::Integer(0))] });
        if r.chance(2, 3) {
            let v = if r.chance(2, 3) { Vis::Mesh } else { Vis::None };
            let k = *r.pick(&[Col::None, Col::Convex, Col::Concave]);
            w.cfg.defs.push(Def {
                classname: n.clone(),
                brush: if r.chance(2, 3) { Some((v, k)) } else { None },
                et: match r.below(3) {
                    0 => Et::Placeholder,
                    1 => Et::Class(format!("C_{}", n)),
                    _ => Et::Prefab(format!("P_{}", n)),
                },
                comp: if r.chance(1, 2) { Some(format!("s_{}.gd", n)) } else { None },
                pat: *r.pick(&[Pat::Properties, Pat::Dictionary, Pat::Metadata]),
            });
        }
    }
    if r.chance(1, 60) {
        // and hundreds of classes that no entity is of
        for i in 0..r.range(60, 700) {
            let n = format!("{}_{}", r.pick(&names), 1000 + i);
            if names.contains(&n) {
                continue;
            }
            w.cfg.forge.push(Forge { class_name: n.clone(), props: vec![] });
            w.cfg.defs.push(Def {
                classname: n.clone(),
                brush: if r.chance(1, 2) { Some((Vis::Mesh, Col::Convex)) } else { None },
                et: Et::Class(n),
                comp: Some("nobody.gd".into()),
                pat: Pat::Metadata,
            });
        }
        ctx.count("tables of hundreds of classes", 1);
    }
    r.shuffle(&mut w.cfg.defs);
    r.shuffle(&mut w.cfg.forge);
    let text = render(r, &w.map, &Style::plain());
    put(ctx, text.as_bytes(), &w.cfg);
    ctx.sample(|| text.clone());
    let tree = sut::run_ok(&text, &w.cfg)?;
    let v = view(&w.map, &tree, false)?;
    for ev in &v.ents {
        let e = &w.map.entities[ev.ent];
        let class = e.get("classname").unwrap();
        let d = w.cfg.def(class);
        let (et, comp, pat) = match d {
            Some(d) => (d.et.clone(), d.comp.clone(), d.pat),
            None => (Et::Placeholder, None, Pat::Properties),
        };
        let a = ev.actor;
        ensure!(
            sut::et_back(&a.entity_type) == et,
            "entity {} ({:?}): built as {:?}, its definition says {:?}",
            ev.ent, class, a.entity_type, et
        );
        ensure!(
            a.component_class == comp,
            "entity {} ({:?}): component {:?}, its definition says {:?}",
            ev.ent, class, a.component_class, comp
        );
        ensure!(
            sut::pat_back(&a.property_application_type) == pat,
            "entity {} ({:?}): properties applied as {:?}, its definition says {:?}",
            ev.ent, class, a.property_application_type, pat
        );
        let faces: usize = e.brushes.iter().map(|b| real_faces(b).len()).sum();
        let want_vis = shows_mesh(&w.cfg, e) && faces > 0;
        ensure!(
            ev.vis.is_some() == want_vis,
            "entity {} ({:?}, {} faces, {:?}): visual geometry present: {}",
            ev.ent, class, faces, d.map(|d| d.brush), ev.vis.is_some()
        );
        let kind = collision_kind(&w.cfg, e);
        let got = match ev.col {
            None => Col::None,
            Some((_, CollisionGeometry::Convex(_))) => Col::Convex,
            Some((_, CollisionGeometry::Concave(_))) => Col::Concave,
            Some((_, CollisionGeometry::None)) => {
                return Err(format!("entity {}: an empty collision node", ev.ent).into())
            }
        };
        let want = if faces > 0 { kind } else { Col::None };
        ensure!(
            got == want,
            "entity {} ({:?}, {} faces): collision {:?}, its definition says {:?}",
            ev.ent, class, faces, got, want
        );
        ctx.count(
            match d.map(|d| d.brush.is_some()) {
                None => "actors of undefined classes",
                Some(true) => "actors of brush classes",
                Some(false) => "actors of point classes",
            },
            1,
        );
        ctx.fp(hash_str(&format!("{} {:?} {} {}", class, d, faces, e.brushes.len())));
    }
    Ok(())
}

// ================================================================= C14

fn dec(r: &mut Rng) -> f32 {
    match r.below(5) {
        0 => r.range(-1000, 1000) as f32,
        1 => r.fr(-1.0, 1.0) as f32,
        2 => 0.0,
        3 => r.fr(-1e6, 1e6) as f32,
        _ => *r.pick(&[
            0.1f32, 255.0, -0.5, 1.0, 3.5e-5, 16777216.0, -0.0, 16777217.0, 65535.0, 65536.0, 2147483648.0, 4294967296.0, 1e9, -1e9, 1e20, 1e38, -3.4028235e38,
            1e-38, 1e-44, 0.30000001, 99999.99, 256.0, 1.0000001,
        ]),
    }
}

const NOT_NUM: [&str; 16] =
    ["x", "one", "1,5", "0x1F", "#", "--2", "true", "1a", "1e", "1_000", "5f", "\u{661}", "1\u{a0}", "1%", "$1", "null"];

/// (text in the map, value it must give; None = the default)
fn int_text(r: &mut Rng) -> (String, Option<i32>) {
    match r.below(5) {
        0 => (r.pick(&NOT_NUM).to_string(), None),
        1 => {
            let s = *r.pick(&["", "1.5", "2147483648", "-2147483649", "99999999999999", "1 2", "12.0", " 5", "5 ", "\t7", "1e2", "-", "+", "0b1"]);
            (s.to_string(), None)
        }
        2 => {
            let i = *r.pick(&[i32::MAX, i32::MIN, 0, -1, 1, 65536]);
            (i.to_string(), Some(i))
        }
        _ => {
            let i = if r.chance(1, 3) { r.next() as i32 } else { r.range(-100000, 100000) as i32 };
            let s = match r.below(8) {
                0 if i >= 0 => format!("+{}", i),
                1 if i >= 0 => format!("00{}", i),
                1 => format!("-000{}", i.unsigned_abs()),
                2 => return ((*r.pick(&["-0", "+0", "000"])).to_string(), Some(0)),
                _ => i.to_string(),
            };
            (s, Some(i))
        }
    }
}

fn float_text(r: &mut Rng) -> (String, Option<f32>) {
    match r.below(4) {
        0 => (r.pick(&NOT_NUM).to_string(), None),
        1 => ((*r.pick(&["", "1.5.2", "1 2", " 0.5", "0.5 ", "\t2", "-", ".", "e5", "0.5f"])).to_string(), None),
        _ => {
            let f = dec(r);
            (vocab::spell(r, f), Some(f))
        }
    }
}

fn triple_text(r: &mut Rng) -> (String, Option<[f32; 3]>) {
    let v = [dec(r), dec(r), dec(r)];
    let mut t: Vec<String> = v.iter().map(|f| vocab::spell(r, *f)).collect();
    match r.below(4) {
        0 => {
            let k = r.below(3);
            t[k] = if r.chance(1, 2) { *r.pick(&NOT_NUM) } else { *r.pick(&vocab::NOT_NUMBERS) }.into();
            (t.join(" "), None)
        }
        1 => {
            t.truncate(r.below(3));
            (t.join(" "), None)
        }
        _ => (t.join(" "), Some(v)),
    }
}

fn str_text(r: &mut Rng) -> String {
    if r.chance(1, 2) {
        return verbatim(r);
    }
    (*r.pick(&["", "hello", "a b  c", "1", "\\n", "caf\u{e9} \u{4e16}\u{1f600}", "{", "// no", "( 1 2 3 )", " lead", "t\tt", "'q'"])).to_string()
}

fn rand_choices(r: &mut Rng) -> Vec<Choice> {
    (0..r.range(1, 5))
        .map(|i| match r.below(3) {
            0 => Choice::string(&format!("n{}", i), &format!("v{}", i)),
            1 => Choice::integer(&format!("n{}", i), r.range(-5, 20) as i32),
            _ => Choice::float(&format!("n{}", i), r.range(0, 8) as f32 / 4.0),
        })
        .collect()
}

fn rand_data(r: &mut Rng) -> PropertyData {
    match r.below(9) {
        0 => PropertyData::Integer(*r.pick(&[0, 1, -7, i32::MAX, i32::MIN, 42])),
        1 => PropertyData::Float(dec(r)),
        2 => PropertyData::Vector3(Vector3::new(dec(r), dec(r), dec(r))),
        3 => PropertyData::String(str_text(r)),
        4 => PropertyData::Color(Color::new(r.f() as f32, r.f() as f32, r.f() as f32)),
        5 => {
            let c = rand_choices(r);
            let k = r.below(c.len()) as i32;
            PropertyData::Choices(c, k)
        }
        6 => {
            let n = if r.chance(1, 8) { 32 } else { r.range(1, 20) as usize };
            PropertyData::Flags((0..n).map(|i| format!("f{}", i)).collect(), (r.next() as i32) & ((1i64 << n) - 1) as i32)
        }
        7 => PropertyData::TargetSource,
        _ => PropertyData::TargetDestination,
    }
}

fn default_of(d: &PropertyData) -> Property {
    match d {
        PropertyData::Integer(i) => Property::Integer(*i),
        PropertyData::Float(f) => Property::Float(*f),
        PropertyData::Vector3(v) => Property::Vector3(*v),
        PropertyData::String(s) => Property::String(s.clone()),
        PropertyData::Color(c) => Property::Color(*c),
        PropertyData::Choices(_, d) => Property::Choices(*d),
        PropertyData::Flags(_, d) => Property::Flags(*d),
        PropertyData::TargetSource => Property::TargetSource,
        PropertyData::TargetDestination => Property::TargetDestination,
    }
}

fn value_for(r: &mut Rng, d: &PropertyData) -> (String, Property) {
    let or = |x: Option<Property>| x.unwrap_or_else(|| default_of(d));
    match d {
        PropertyData::Integer(_) => {
            let (t, v) = int_text(r);
            (t, or(v.map(Property::Integer)))
        }
        PropertyData::Choices(_, _) => {
            let (t, v) = int_text(r);
            (t, or(v.map(Property::Choices)))
        }
        PropertyData::Flags(_, _) => {
            let (t, v) = int_text(r);
            (t, or(v.map(Property::Flags)))
        }
        PropertyData::Float(_) => {
            let (t, v) = float_text(r);
            (t, or(v.map(Property::Float)))
        }
        PropertyData::Vector3(_) => {
            let (t, v) = triple_text(r);
            (t, or(v.map(|v| Property::Vector3(Vector3::new(v[0], v[1], v[2])))))
        }
        PropertyData::Color(_) => {
            let (t, v) = triple_text(r);
            (t, or(v.map(|v| Property::Color(Color::new(v[0], v[1], v[2])))))
        }
        PropertyData::String(_) => {
            let t = str_text(r);
            (t.clone(), Property::String(t))
        }
        _ => (str_text(r), default_of(d)),
    }
}

const KEYS: [&str; 14] = [
    "angle", "angles", "Angle", "speed", "targetname", "target", "message", "spawnflags", "_color", "k", "kk", "with space", "\u{e9}", "lip",
];

pub fn c14(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let mut map = GMap::default();
    let mut cfg = Cfg::default();
    let alike = loop {
        let n = vocab::near_name(r, "cls_a");
        if !["cls_a", "cls_ab", "Cls_a"].contains(&n.as_str()) {
            break n;
        }
    };
    let classes = ["worldspawn", "cls_a", alike.as_str(), if r.chance(1, 2) { "cls_ab" } else { "Cls_a" }, "nodef"];
    let mut want: Vec<BTreeMap<String, String>> = vec![];
    for c in classes.iter().take(4) {
        let mut keys: Vec<&str> = KEYS.to_vec();
        r.shuffle(&mut keys);
        keys.truncate(r.below(8));
        cfg.forge.push(Forge {
            class_name: c.to_string(),
            props: keys.iter().map(|k| (k.to_string(), rand_data(r))).collect(),
        });
        if r.chance(1, 300) {
            // a class of hundreds of properties
            let n = r.range(40, 400);
            let f = cfg.forge.last_mut().unwrap();
            for i in 0..n {
                f.props.push((format!("{}{}", r.pick(&KEYS), i), rand_data(r)));
            }
            r.shuffle(&mut f.props);
        }
        if r.chance(3, 4) {
            cfg.defs.push(Def {
                classname: c.to_string(),
                brush: if r.chance(1, 2) { Some((Vis::Mesh, Col::Convex)) } else { None },
                et: world::rand_et(r),
                comp: None,
                pat: *r.pick(&[Pat::Properties, Pat::Dictionary, Pat::Metadata]),
            });
        }
    }
    let n = r.range(1, 6);
    for i in 0..n {
        let class = if i == 0 { "worldspawn" } else { *r.pick(&classes[1..]) };
        let mut e = GEntity::default();
        let mut w = BTreeMap::new();
        let forge = cfg.forge.iter().find(|f| f.class_name == class).cloned();
        e.set("classname", class);
        if let Some(f) = &forge {
            for (k, d) in &f.props {
                let exp = if r.chance(2, 3) {
                    let (t, p) = value_for(r, d);
                    if r.chance(1, 8) {
                        // an earlier assignment of the same key is overridden
                        let junk = value_for(r, d).0;
                        e.set(k, &junk);
                        ctx.count("keys assigned twice", 1);
                    }
                    e.set(k, &t);
                    ctx.count("values in the map", 1);
                    p
                } else {
                    ctx.count("values by default", 1);
                    default_of(d)
                };
                w.insert(k.clone(), sut::dump_property(&exp));
                ctx.fp(hash_str(&format!("{} {:?} {:?}", k, d, e.get(k))));
            }
        }
        // undeclared keys never surface
        if r.chance(1, 2) {
            let declared: Vec<String> = forge.iter().flat_map(|f| f.props.iter().map(|p| p.0.clone())).collect();
            vocab::chatter(r, &mut e, &|k| declared.iter().any(|d| d == k));
            ctx.count("entities with undeclared keys of editors and games", 1);
        }
        for k in ["undeclared", "extra_key"] {
            if r.chance(1, 4) {
                let s = str_text(r);
                e.set(k, &s);
            }
        }
        // editor bookkeeping
        if i > 0 && r.chance(1, 2) {
            let (t, v) = int_text(r);
            e.set("_tb_id", &t);
            if let (Some(v), true) = (v, forge.is_some()) {
                w.insert("_tb_id".into(), format!("Integer({})", v));
            }
            let s = str_text(r);
            e.set("_tb_type", &s);
            if forge.is_some() {
                w.insert("_tb_type".into(), sut::dump_property(&Property::String(s)));
            }
            if r.chance(1, 2) {
                let s = str_text(r);
                e.set("_tb_name", &s);
                if forge.is_some() {
                    w.insert("_tb_name".into(), sut::dump_property(&Property::String(s)));
                }
            }
        }
        if r.chance(1, 4) {
            let (g, v) = if r.chance(1, 4) {
                int_text(r)
            } else {
                let g = 70000 + r.below(5) as i32;
                (g.to_string(), Some(g))
            };
            e.set("_tb_group", &g);
            if let (Some(v), true) = (v, forge.is_some()) {
                w.insert("_tb_group".into(), format!("Integer({})", v));
            }
        }
        map.entities.push(e);
        want.push(w);
    }
    // ids must not accidentally name the (absent) groups 70000..
    for e in map.entities.iter() {
        if let Some(id) = e.get("_tb_id") {
            if map.entities.iter().any(|o| o.get("_tb_group") == Some(id)) {
                return Err(Fail::Skip("group id collision".into()));
            }
        }
    }
    r.shuffle(&mut cfg.forge);
    let text = render(r, &map, &Style::plain());
    put(ctx, text.as_bytes(), &cfg);
    ctx.sample(|| text.clone());
    let tree = sut::run_ok(&text, &cfg)?;
    let v = view(&map, &tree, false)?;
    for ev in &v.ents {
        let mut got: BTreeMap<String, String> = BTreeMap::new();
        for (k, p) in &ev.actor.properties.0 {
            got.insert(k.clone(), sut::dump_property(p));
        }
        let w = &want[ev.ent];
        for (k, x) in w {
            ensure!(
                got.get(k) == Some(x),
                "entity {} property {:?} (in the map: {:?}): got {:?}, expected {}",
                ev.ent, k, map.entities[ev.ent].get(k), got.get(k), x
            );
        }
        for k in got.keys() {
            ensure!(
                w.contains_key(k),
                "entity {} carries the property {:?} = {} that its class does not declare",
                ev.ent, k, got[k]
            );
        }
        ctx.count("actors", 1);
    }
    Ok(())
}

// ================================================================= C15

/// The same names everywhere, standing for something else.
fn other_meanings(r: &mut Rng, c: &Cfg) -> Cfg {
    let mut c = c.clone();
    for t in c.tex.iter_mut() {
        t.1 = (1 + (t.1).0 * 3, 7 + (t.1).1);
    }
    std::mem::swap(&mut c.bl_brush, &mut c.bl_plane);
    for d in c.defs.iter_mut() {
        d.et = world::rand_et(r);
        d.comp = Some("other.gd".into());
        d.brush = match d.brush {
            None => Some((Vis::Mesh, Col::Convex)),
            Some((v, Col::Convex)) => Some((v, Col::Concave)),
            Some((Vis::Mesh, k)) => Some((Vis::None, k)),
            Some(_) => None,
        };
    }
    for l in c.layers.iter_mut() {
        l.name.push_str(" (other)");
        l.col = if l.col == Col::Convex { Col::Concave } else { Col::Convex };
    }
    for f in c.forge.iter_mut() {
        for p in f.props.iter_mut() {
            p.1 = rand_data(r);
        }
    }
    c
}

/// The same map and tables under names nobody has used before.
fn renamed(m: &GMap, c: &Cfg, tag: &str) -> (GMap, Cfg) {
    let fixed = |t: &str| t.eq_ignore_ascii_case("*water0") || t.eq_ignore_ascii_case("*slime0") || t == "worldspawn";
    let tagged = |t: &mut String| {
        if !fixed(t) {
            t.insert_str(0, tag);
        }
    };
    let (mut m, mut c) = (m.clone(), c.clone());
    for e in m.entities.iter_mut() {
        for p in e.props.iter_mut().filter(|p| p.0 == "classname") {
            tagged(&mut p.1);
        }
        for p in e.brushes.iter_mut().flat_map(|b| b.planes.iter_mut()) {
            tagged(&mut p.texture);
        }
    }
    c.tex.iter_mut().for_each(|t| tagged(&mut t.0));
    c.bl_brush.iter_mut().for_each(|t| tagged(t));
    c.bl_plane.iter_mut().for_each(|t| tagged(t));
    c.defs.iter_mut().for_each(|d| tagged(&mut d.classname));
    c.forge.iter_mut().for_each(|f| tagged(&mut f.class_name));
    (m, c)
}

/// Hundreds of entities, built again and again, several at a time.
fn legion(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let o = WOpts {
        ents: (if r.chance(1, 2) { 66 } else { 200 }, 700),
        brushes: (0, 1),
        phong: r.chance(1, 2),
        groups: r.chance(1, 2),
        dangling: true,
        origins: true,
        mixed_defs: true,
        vis: None,
        col: None,
        ..WOpts::default()
    };
    let w = world::gen(r, &o);
    let text = render(r, &w.map, &Style::plain());
    put(ctx, text.as_bytes(), &w.cfg);
    ctx.sample(|| format!("{} entities, built again and again", w.map.entities.len()));
    let want = sut::dump_tree(&sut::run_ok(&text, &w.cfg)?);
    let rounds = 3;
    for _ in 0..rounds {
        let got: Vec<Result<String, String>> = std::thread::scope(|s| {
            let hands: Vec<_> = (0..4)
                .map(|_| s.spawn(|| sut::run_ok(&text, &w.cfg).map(|t| sut::dump_tree(&t))))
                .collect();
            hands.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic".into()))).collect()
        });
        for g in got {
            let g = g?;
            ensure!(g == want, "building a map of {} entities again gives a different tree: {}", w.map.entities.len(), first_diff(&want, &g));
            ctx.count("maps of hundreds of entities built again", 1);
        }
    }
    ctx.fp(hash_str(&want));
    Ok(())
}

pub fn c15(ctx: &mut Ctx, r: &mut Rng) -> Res {
    if crowd::called(r, 100) {
        return crowd::deterministic(ctx, r);
    }
    if r.chance(1, 60) {
        return legion(ctx, r);
    }
    let o = WOpts {
        ents: (1, 7),
        brushes: (0, 3),
        phong: true,
        groups: true,
        dangling: true,
        origins: r.chance(1, 2),
        oddities: r.chance(1, 3),
        blacklist: r.chance(1, 2),
        mixed_defs: true,
        vis: None,
        col: None,
        ..WOpts::default()
    };
    let k = r.range(2, 4) as usize;
    let mut ws: Vec<(String, World)> = vec![];
    for _ in 0..k {
        let mut w = world::gen(r, &o);
        let wsp = w.map.entities.iter().position(|e| e.get("classname") == Some("worldspawn")).unwrap();
        for t in ["*water0", "*slime0"] {
            if r.chance(3, 4) {
                let c = w.next_cell().unwrap();
                let mut tx = TexGen { names: vec![t.into()], unique: false, counter: 0 };
                let b = gen_brush(r, c, &BrushCfg { max_tries: 200, ..BrushCfg::plain() }, &mut tx);
                w.map.entities[wsp].brushes.push(b);
            }
            w.cfg.tex.push((t.into(), (64, 64)));
            w.cfg.layers.push(Layer {
                name: format!("Layer {}", t),
                texture: t.into(),
                et: world::rand_et(r),
                comp: None,
                vis: Vis::Mesh,
                col: *r.pick(&[Col::Convex, Col::Concave]),
            });
        }
        if r.chance(1, 3) {
            hostile::hostile_groups(r, &mut w.map);
        }
        for f in w.cfg.forge.iter_mut() {
            for i in 0..r.below(6) {
                f.props.push((format!("p{}", i), rand_data(r)));
            }
        }
        ws.push((render(r, &w.map, &Style::plain()), w));
    }
    let mut want = vec![];
    for (t, w) in &ws {
        put(ctx, t.as_bytes(), &w.cfg);
        want.push(sut::dump_tree(&sut::run_ok(t, &w.cfg)?));
    }
    ctx.sample(|| ws[0].0.clone());
    // history: again, in another order, with permuted configuration tables
    let one_path = sut::TmpFile::new(b"", "map");
    let put_there = |t: &str| {
        // the same file, its time stamp included
        std::fs::write(&one_path.0, t).expect("harness: scratch");
        if let Ok(h) = std::fs::OpenOptions::new().write(true).open(&one_path.0) {
            let _ = h.set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000));
        }
    };
    for _ in 0..3 {
        let i = r.below(k);
        if r.chance(1, 2) {
            // meanwhile someone builds with the same names meaning other things
            let j = r.below(k);
            let c = other_meanings(r, &ws[j].1.cfg);
            put_there(&ws[j].0);
            let there = sut::run_path(one_path.path(), &c);
            ctx.count("builds with other tables in between", 1);
            if r.chance(1, 3) {
                // and gets what somebody gets who is the first to use these names
                let tag = format!("q{:016x}_", r.next());
                let (m, d) = renamed(&ws[j].1.map, &c, &tag);
                let t = render(r, &m, &Style::plain());
                let fresh = sut::dump_tree(&sut::run_ok(&t, &d)?).replace(&tag, "");
                put(ctx, ws[j].0.as_bytes(), &c);
                match there {
                    RunOut::Tree(t) => {
                        let d = sut::dump_tree(&t);
                        ensure!(d == fresh, "building after others have used the same names gives a different tree: {}", first_diff(&fresh, &d));
                    }
                    RunOut::Error(e) | RunOut::Panic(e) => return Err(format!("building with other tables fails: {}", e).into()),
                }
                ctx.count("builds under fresh names", 1);
            }
        }
        let mut c = ws[i].1.cfg.clone();
        r.shuffle(&mut c.tex);
        r.shuffle(&mut c.bl_brush);
        r.shuffle(&mut c.bl_plane);
        r.shuffle(&mut c.defs);
        r.shuffle(&mut c.forge);
        r.shuffle(&mut c.layers);
        put(ctx, ws[i].0.as_bytes(), &c);
        let d = if r.chance(1, 2) {
            put_there(&ws[i].0);
            match sut::run_path(one_path.path(), &c) {
                RunOut::Tree(t) => sut::dump_tree(&t),
                RunOut::Error(e) | RunOut::Panic(e) => return Err(format!("building the same map again fails: {}", e).into()),
            }
        } else {
            sut::dump_tree(&sut::run_ok(&ws[i].0, &c)?)
        };
        ensure!(
            d == want[i],
            "building the same map again gives a different tree: {}",
            first_diff(&want[i], &d)
        );
        ctx.count("repeated builds", 1);
    }
    // concurrency: all maps from several threads at once
    let threads = r.range(2, 6) as usize;
    let barrier = std::sync::Barrier::new(threads);
    let results: Vec<(usize, Result<String, String>)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (ws, barrier) = (&ws, &barrier);
                s.spawn(move || {
                    let i = t % k;
                    let f = sut::TmpFile::new(ws[i].0.as_bytes(), "map");
                    barrier.wait();
                    let o = sut::run_path(f.path(), &ws[i].1.cfg);
                    (
                        i,
                        match o {
                            RunOut::Tree(t) => Ok(sut::dump_tree(&t)),
                            RunOut::Error(e) => Err(format!("error {}", e)),
                            RunOut::Panic(e) => Err(format!("panic {}", e)),
                        },
                    )
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("harness: thread")).collect()
    });
    for (i, d) in results {
        put(ctx, ws[i].0.as_bytes(), &ws[i].1.cfg);
        match d {
            Ok(d) => ensure!(
                d == want[i],
                "building the map while {} other builds run gives a different tree: {}",
                threads - 1, first_diff(&want[i], &d)
            ),
            Err(e) => return Err(format!("building the map while other builds run: {}", e).into()),
        }
        ctx.count("concurrent builds", 1);
    }
    for d in &want {
        if d.len() > 400 {
            ctx.fp(hash_str(d));
        }
    }
    Ok(())
}

// ================================================================= C17

pub fn c17(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let mut keys: Vec<&str> = KEYS.to_vec();
    r.shuffle(&mut keys);
    keys.truncate(r.range(1, 8) as usize);
    let mut props: Vec<(String, PropertyData)> = vec![];
    for k in &keys {
        let d = rand_data(r);
        props.push((k.to_string(), d));
    }
    let mut cfg = Cfg::default();
    cfg.forge.push(Forge { class_name: "worldspawn".into(), props: vec![] });
    cfg.forge.push(Forge { class_name: "thing".into(), props: props.clone() });
    // what the level editor is told
    let fgd = sut::forge_game_data(&cfg.forge).to_string();
    ctx.input("game.fgd", fgd.as_bytes());
    let parsed = crate::fgd::parse(&fgd).map_err(|e| format!("cannot read the generated FGD: {}", e))?;
    let class = parsed
        .classes
        .iter()
        .find(|c| c.name == "thing")
        .ok_or("class missing from the FGD")?;
    let mk = |with: &[(String, String)]| {
        let mut m = GMap::default();
        let mut w = GEntity::default();
        w.set("classname", "worldspawn");
        m.entities.push(w);
        let mut e = GEntity::default();
        e.set("classname", "thing");
        for (k, v) in with {
            e.set(k, v);
        }
        m.entities.push(e);
        m
    };
    let props_of = |tree: &[SceneTreeNode]| -> Result<BTreeMap<String, Property>, String> {
        let a = tree.get(1).and_then(actor_parts).ok_or("no second actor")?;
        Ok(a.0.properties.0.iter().map(|(k, v)| (k.clone(), v.clone())).collect())
    };
    let omitted = {
        let t = render(r, &mk(&[]), &Style::plain());
        props_of(&sut::run_ok(&t, &cfg)?)?
    };
    let mut spelled = vec![];
    for p in &class.props {
        if let Some(v) = p.default_text() {
            spelled.push((p.name.clone(), v));
        }
    }
    let text = render(r, &mk(&spelled), &Style::plain());
    put(ctx, text.as_bytes(), &cfg);
    ctx.input("game.fgd", fgd.as_bytes());
    ctx.sample(|| format!("{}\n{}", fgd, text));
    let explicit = props_of(&sut::run_ok(&text, &cfg)?)?;
    let mut known = None;
    for (k, d) in &props {
        let txt = spelled.iter().find(|s| s.0 == *k).map(|s| s.1.clone());
        let txt = match (d, txt) {
            (PropertyData::TargetSource, _) | (PropertyData::TargetDestination, _) => continue,
            (_, Some(t)) => t,
            (_, None) => return Err(format!("the FGD shows no default for {:?} ({:?})", k, d).into()),
        };
        let a = omitted.get(k).map(sut::dump_property).unwrap_or_default();
        let b = explicit.get(k).map(sut::dump_property).unwrap_or_default();
        ctx.count("defaults compared", 1);
        ctx.fp(hash_str(&format!("{:?}", d)));
        if a == b {
            ctx.count("defaults that agree", 1);
            continue;
        }
        // the two recorded defects, recognised exactly
        match d {
            PropertyData::Color(c) => {
                let nums: Vec<f32> = txt.split(' ').filter_map(|x| x.parse().ok()).collect();
                if nums.len() == 3
                    && a == sut::dump_property(&Property::Color(*c))
                    && b == sut::dump_property(&Property::Color(Color::new(nums[0], nums[1], nums[2])))
                    && [c.r, c.g, c.b].iter().zip(&nums).all(|(x, n)| (x * 255.0 - n).abs() < 1.001)
                {
                    known = Some((
                        "color-scale",
                        format!("color default {:?} is shown to the editor as {:?}, and that text is read back as {}", c, txt, b),
                    ));
                    continue;
                }
            }
            PropertyData::Choices(ch, i) => {
                let val = ch.get(*i as usize).map(|c| c.value.to_string());
                let read = txt.parse::<i32>().unwrap_or(*i);
                if a == format!("Choices({})", i) && val.as_deref() == Some(&txt) && b == format!("Choices({})", read) {
                    known = Some((
                        "choices-index",
                        format!("choices default is index {} when the key is omitted, but {} when its value {:?} is spelled out", i, b, txt),
                    ));
                    continue;
                }
            }
            _ => (),
        }
        return Err(format!(
            "property {:?} ({:?}): omitting the key gives {}, writing the default {:?} that the FGD shows gives {}",
            k, d, a, txt, b
        )
        .into());
    }
    match known {
        Some((s, d)) => Err(Fail::Known(s.into(), d)),
        None => Ok(()),
    }
}
