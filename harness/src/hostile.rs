//! Hostile map input: byte-level, token-level, geometric and semantic.
use crate::mapgen::*;
use crate::rng::Rng;
use crate::vocab;
use crate::sut::{Cfg, Col, Def, Et, Forge, Layer, Pat, Vis};
use crate::world::{self, WOpts};
use quarchitect::game_data::forge::{Choice, PropertyData};
use quarchitect::{Color, Vector3};

const NUMS: [&str; 30] = [
    "0", "-0", "1", "nan", "NaN", "inf", "-inf", "infinity", "1e38", "-1e38", "3.4e38", "1e39", "1e-45", "1e-39",
    "16777217", "-16777216.5", "1e20", "-3e19", "0.0000001", "", "x", "0x10", "--1", "1e", "1.5.2", "99999999999999999999",
    "2147483648", "-2147483649", "\u{661}", "1_000",
];

/// Texture names of one to four byte characters, several of the same length.
const NAMES: [&str; 28] = [
    "brick1", "a", "*water0", "*slime0", "*lava1", "", "sky1", "special/clip", "(", "1", "\u{e9}", "\u{df}", "ab", "\u{4e16}", "abc", "x\u{e9}", "\u{e9}x", "\u{e9}tage", "e\u{301}tage",
    "*\u{e9}au", "*eau1", "\u{1f600}", "wxyz", "\u{130}", "i\u{307}", "\u{3a9}\u{3a9}", "\u{212a}", "\u{1e9e}x",
];

/// A definition with defaults no table of names has.
fn hostile_data(r: &mut Rng) -> PropertyData {
    let i = *r.pick(&[0, 1, 2, 3, 7, -1, -3, 31, 32, 63, 255, 65536, i32::MAX, i32::MIN]);
    let f = *r.pick(&[0.0f32, -0.0, 0.5, 1.5, -2.0, 255.0, 256.0, 1e-45, f32::MAX, f32::MIN, f32::NAN, f32::INFINITY, f32::NEG_INFINITY]);
    let g = *r.pick(&[0.0f32, 1.0, f32::NAN, 3e38]);
    match r.below(9) {
        0 => PropertyData::Integer(i),
        1 => PropertyData::Float(f),
        2 => PropertyData::Vector3(Vector3::new(f, g, 1.0)),
        3 => PropertyData::String((*r.pick(&["", "d", "\u{1f600}", "\"", "a\0b", "-"])).to_string()),
        4 => PropertyData::Color(Color::new(f, g, 0.5)),
        5 | 6 => {
            let all = [
                Choice::string("n", "v"), Choice::integer("m", 3), Choice::float("f", f), Choice::string("", ""), Choice::integer("m", i), Choice::string("\u{e9}", "\u{1f600}"),
            ];
            PropertyData::Choices(all[..r.below(all.len() + 1)].to_vec(), i)
        }
        7 => {
            let n = *r.pick(&[0usize, 1, 2, 24, 31, 32, 33, 40]);
            PropertyData::Flags((0..n).map(|k| if k % 5 == 4 { String::new() } else { format!("f{}", k) }).collect(), i)
        }
        _ => {
            if r.chance(1, 2) {
                PropertyData::TargetSource
            } else {
                PropertyData::TargetDestination
            }
        }
    }
}

/// Names as long, in bytes, as ones that mean something, with a wide character in them.
fn twins() -> &'static [String] {
    static T: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![];
        for n in ["*water0", "*slime0", "*lava1", "brick1", "sky1"] {
            for c in ["\u{e9}", "\u{4e16}", "\u{1f600}"] {
                for at in [0, 1, n.len() - c.len()] {
                    if at + c.len() <= n.len() {
                        v.push(format!("{}{}{}", &n[..at], c, &n[at + c.len()..]));
                    }
                }
            }
        }
        v
    })
}

fn name(r: &mut Rng) -> &'static str {
    if r.chance(1, 4) {
        r.pick(twins()).as_str()
    } else {
        *r.pick(&NAMES)
    }
}

pub fn hostile_cfg(r: &mut Rng) -> Cfg {
    let mut c = Cfg::default();
    let wide = r.chance(1, 2);
    for t in NAMES.iter().copied().chain(twins().iter().map(|t| t.as_str()).filter(|_| wide)) {
        if r.chance(1, 2) {
            let d = |r: &mut Rng| *r.pick(&[0u32, 1, 16, 64, 4096, u32::MAX]);
            c.tex.push((t.into(), (d(r), d(r))));
        }
        if r.chance(1, 12) {
            c.bl_brush.push(t.into());
        }
        if r.chance(1, 12) {
            c.bl_plane.push(t.into());
        }
    }
    let v = |r: &mut Rng| if r.chance(3, 4) { Vis::Mesh } else { Vis::None };
    let k = |r: &mut Rng| *r.pick(&[Col::None, Col::Convex, Col::Concave]);
    for n in ["worldspawn", "cls_0", "cls_1", "func_group", "info", "", "x\u{e9}"] {
        if r.chance(3, 4) {
            let b = if r.chance(3, 4) { Some((v(r), k(r))) } else { None };
            c.defs.push(Def {
                classname: n.into(),
                brush: b,
                et: world::rand_et(r),
                comp: if r.chance(1, 2) { Some("s.gd".into()) } else { None },
                pat: *r.pick(&[Pat::Properties, Pat::Dictionary, Pat::Metadata]),
            });
        }
        if r.chance(3, 4) {
            let ch = vec![Choice::string("n", "v"), Choice::integer("m", 3)];
            let mut props: Vec<(String, PropertyData)> = vec![
                ("uid".into(), PropertyData::Integer(1)),
                ("i".into(), PropertyData::Integer(-3)),
                ("f".into(), PropertyData::Float(0.5)),
                ("v".into(), PropertyData::Vector3(Vector3::new(1., 2., 3.))),
                ("s".into(), PropertyData::String("d".into())),
                ("c".into(), PropertyData::Color(Color::new(0.5, 0.5, 0.5))),
                ("ch".into(), PropertyData::Choices(ch, 1)),
                ("fl".into(), PropertyData::Flags(vec!["a".into(), "b".into()], 3)),
                ("targetname".into(), PropertyData::TargetSource),
                ("target".into(), PropertyData::TargetDestination),
                ("_tb_id".into(), PropertyData::Integer(0)),
            ];
            if r.chance(1, 2) {
                let keys = ["i", "f", "v", "s", "c", "ch", "fl", "uid", "", "_phong", "_phong_angle", "_tb_group", "_tb_type", "origin", "classname", "\u{e9}"];
                for _ in 0..r.range(1, 8) {
                    let d = hostile_data(r);
                    let k = *r.pick(&keys);
                    match props.iter_mut().find(|p| p.0 == k) {
                        // now and then a key is defined twice
                        Some(p) if r.chance(7, 8) => p.1 = d,
                        _ => props.push((k.into(), d)),
                    }
                }
            }
            c.forge.push(Forge { class_name: n.into(), props });
        }
    }
    for _ in 0..2 {
        let t = name(r);
        for t in [t, "*water0", "*slime0", "*lava1"] {
            if t.is_empty() || r.chance(1, 3) {
                continue;
            }
            for _ in 0..*r.pick(&[0, 1, 1, 1, 2]) {
                c.layers.push(Layer {
                    name: (*r.pick(&["L", "", "\u{e9}"])).into(),
                    texture: t.into(),
                    et: Et::Placeholder,
                    comp: None,
                    vis: v(r),
                    col: k(r),
                });
            }
        }
    }
    c
}

const VALUES: [&str; 52] = [
    "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "-4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
    "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999", "340282366920938463463374607431768211456", "1e10", "1e999", "+5", "05", "-0", " 5", "5 ", "5\t",
    "0x1F", "", " ", "-", "+", ".", ",", "nan", "inf", "-inf", "\u{e9}", "\u{ff11}", "\u{661}\u{662}", "\u{1f600}", "1 2", "1 2 3 4", "1  2 3", "1\t2\t3", " 1 2 3", "1 2 3 ",
    "1e39 -1e39 0", "nan nan nan", "256 -1 300", "1,2,3", "(1 2 3)", "1;2", "true", "null", "%s%n",
];

/// A value at or beyond the edge of what some kind of property can hold.
fn value(r: &mut Rng) -> String {
    match r.below(8) {
        0 => num(r).replace('"', ""),
        1 => format!("{} {} {}", num(r), num(r), num(r)).replace('"', ""),
        2 => {
            let mut s = (*r.pick(&VALUES)).to_string();
            spice(r, &mut s);
            s.replace('"', "")
        }
        3 if r.chance(1, 8) => (*r.pick(&["9", "1 ", "-", "\u{e9}", "0"])).repeat(*r.pick(&[40usize, 400, 5000])),
        _ => (*r.pick(&VALUES)).to_string(),
    }
}

/// Well-formed maps whose property values and texture names are at the edge.
pub fn edge_map(r: &mut Rng) -> Vec<u8> {
    let o = WOpts { ents: (1, 4), brushes: (0, 2), phong: r.chance(1, 2), groups: r.chance(1, 3), dangling: true, origins: r.chance(1, 2), ..WOpts::default() };
    let mut w = world::gen(r, &o);
    let keys = ["i", "f", "v", "s", "c", "ch", "fl", "uid", "_tb_id", "_tb_group", "_tb_type", "_tb_name", "_phong", "_phong_angle", "origin", "target", "targetname", "", "\u{e9}"];
    // the reverse of a group is often wanted to be its id as well
    let shared = value(r);
    for e in w.map.entities.iter_mut() {
        if r.chance(1, 4) {
            let c = *r.pick(&["cls_0", "cls_1", "info", "worldspawn", "func_group", "x\u{e9}", ""]);
            e.set("classname", c);
        }
        for _ in 0..r.range(0, 5) {
            let k = *r.pick(&keys);
            let v = if r.chance(1, 4) { shared.clone() } else { value(r) };
            e.set(k, &v);
        }
        for b in e.brushes.iter_mut() {
            let t = name(r);
            let whole = r.chance(1, 2);
            for p in b.planes.iter_mut() {
                if whole || r.chance(1, 3) {
                    let t = if whole { t } else { name(r) };
                    if !t.is_empty() {
                        p.texture = t.to_string();
                    }
                }
            }
        }
    }
    render(r, &w.map, &Style::plain()).into_bytes()
}

/// Characters of one to four bytes, controls and combining marks among them.
const WILD: [char; 30] = [
    '\u{e9}', '\u{c9}', '\u{df}', '\u{130}', '\u{131}', '\u{3a9}', '\u{3c2}', '\u{42f}', '\u{5d0}', '\u{661}', '\u{800}', '\u{fff}', '\u{2028}', '\u{2029}', '\u{3000}',
    '\u{4e16}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{1f600}', '\u{10ffff}', '\u{301}', '\u{200b}', '\u{85}', '\u{a0}', '\u{b}', '\u{c}', '\u{0}', '\u{7f}', '\u{1b}',
];

/// Put some wild characters into a line: at its start, its end or anywhere.
fn spice(r: &mut Rng, l: &mut String) {
    for _ in 0..r.range(1, 3) {
        let at: Vec<usize> = l.char_indices().map(|c| c.0).chain(Some(l.len())).collect();
        let k = match r.below(3) {
            0 => 0,
            1 => l.len(),
            _ => *r.pick(&at),
        };
        l.insert(k, *r.pick(&WILD));
    }
}

fn num(r: &mut Rng) -> String {
    match r.below(4) {
        0 => r.pick(&NUMS).to_string(),
        1 => r.range(-300, 300).to_string(),
        2 => format!("{:e}", r.fr(-1.0, 1.0) * 10f64.powi(r.range(-44, 39) as i32)),
        _ => format!("{}", r.fr(-500.0, 500.0)),
    }
}

fn word(r: &mut Rng) -> String {
    match r.below(12) {
        0 => "(".into(),
        1 => ")".into(),
        2 => "[".into(),
        3 => "]".into(),
        4 => r.pick(&["brick1", "*water0", "*slime0", "TEX", "\u{130}stanbul", "\u{df}", "a/b"]).to_string(),
        5 => "{".into(),
        6 => "}".into(),
        7 => "\"".into(),
        _ => num(r),
    }
}

fn soup_plane(r: &mut Rng) -> String {
    if r.chance(1, 3) {
        let n = r.below(40);
        let mut s = String::from("(");
        for _ in 0..n {
            s.push(*r.pick(&[' ', ' ', '\t', '\u{a0}']));
            s.push_str(&word(r));
        }
        return s;
    }
    let mut s = String::new();
    for _ in 0..3 {
        s.push_str(&format!("( {} {} {} ) ", num(r), num(r), num(r)));
    }
    s.push_str(r.pick(&["brick1", "*water0", "*slime0", "sky1", "A", ""]));
    if r.chance(1, 2) {
        s.push_str(&format!(" {} {}", num(r), num(r)));
    } else {
        for _ in 0..2 {
            s.push_str(&format!(" [ {} {} {} {} ]", num(r), num(r), num(r), num(r)));
        }
    }
    s.push_str(&format!(" {} {} {}", num(r), num(r), num(r)));
    for _ in 0..*r.pick(&[0, 0, 0, 1, 2, 3, 4, 6, 7]) {
        s.push(' ');
        s.push_str(&num(r));
    }
    s
}

fn soup_prop(r: &mut Rng) -> String {
    let k = *r.pick(&[
        "classname", "classname", "classname", "origin", "_phong", "_phong_angle", "_tb_id", "_tb_group", "_tb_type", "_tb_name", "i", "f",
        "v", "s", "c", "ch", "fl", "targetname", "uid", "", "\u{1f600}",
    ]);
    let v = match r.below(6) {
        0 => num(r),
        1 => format!("{} {} {}", num(r), num(r), num(r)),
        2 => r.pick(&["worldspawn", "cls_0", "cls_1", "func_group", "info", ""]).to_string(),
        3 => r.pick(&["1", "2", "3", "0", "-1"]).to_string(),
        4 => " ".repeat(r.below(4)),
        _ => r.pick(&["a\"b", "\\", "\\\"", "\u{0}", "\u{feff}x", "()"]).to_string(),
    };
    match r.below(12) {
        0 => format!("\"{}\"", k),
        1 => format!("\"{}", k),
        2 => format!("\"{}\" {}", k, v),
        3 => format!("\"{}\" \"{}", k, v),
        4 => "\"".into(),
        _ => format!("\"{}\" \"{}\"", k, v),
    }
}

/// Lines that look like a map only locally.
pub fn soup(r: &mut Rng) -> Vec<u8> {
    let n = r.range(0, 60);
    let mut s = String::new();
    let balanced = r.chance(2, 3);
    if balanced {
        for e in 0..r.range(0, 6) {
            s.push_str("{\n");
            if e == 0 || r.chance(1, 20) {
                s.push_str("\"classname\" \"worldspawn\"\n");
            } else if r.chance(30, 31) {
                s.push_str(&format!("\"classname\" \"{}\"\n", r.pick(&["cls_0", "cls_1", "func_group", "info", ""])));
            }
            for _ in 0..r.below(5) {
                s.push_str(&soup_prop(r));
                s.push('\n');
            }
            for _ in 0..r.below(3) {
                s.push_str("{\n");
                for _ in 0..r.below(9) {
                    s.push_str(&soup_plane(r));
                    s.push('\n');
                }
                s.push_str("}\n");
            }
            s.push_str("}\n");
        }
        return s.into_bytes();
    }
    for _ in 0..n {
        let l = match r.below(10) {
            0 | 1 => "{".to_string(),
            2 | 3 => "}".to_string(),
            4 => match r.below(3) {
                0 => vocab::comment(r),
                1 => vocab::unrecognised(r),
                _ => format!("// {}", word(r)),
            },
            5 | 6 => soup_prop(r),
            7 | 8 => soup_plane(r),
            _ => format!("{}{}", word(r), " x"),
        };
        let mut l = l;
        if r.chance(1, 12) {
            spice(r, &mut l);
        }
        s.push_str(&l);
        s.push_str(*r.pick(&["\n", "\n", "\n", "\r\n", "\r", "", "\n\n"]));
    }
    s.into_bytes()
}

fn f32ish(x: f64) -> f32 {
    x as f32
}

/// Planes of extreme size, aspect or degeneracy, but syntactically perfect.
pub fn extreme_brush(r: &mut Rng) -> GBrush {
    let mut planes = vec![];
    let mut tex = TexGen { names: vec!["brick1".into(), "*water0".into(), "sky1".into(), "none".into()], unique: false, counter: 0 };
    let scale = *r.pick(&[1.0, 1e-3, 1e-10, 1e-30, 1e5, 1e9, 1e15, 1e18, 6e18, 1e19, 3e19, 1e25, 1e30, 1e37]);
    let scale: f64 = scale * r.fr(0.5, 2.0);
    let k = match r.below(6) {
        0 => r.range(0, 3),
        1 => r.range(20, 40),
        _ => r.range(3, 14),
    };
    let style = r.below(6);
    let ph = r.fr(0.0, 6.28);
    let c = [r.fr(-1.0, 1.0) * scale, r.fr(-1.0, 1.0) * scale, r.fr(-1.0, 1.0) * scale];
    let c = if r.chance(1, 2) { [0.0; 3] } else { c };
    let mut add = |r: &mut Rng, n: [f64; 3], d: f64| {
        let t = if n[2].abs() < 0.9 { [0.0, 0.0, 1.0] } else { [1.0, 0.0, 0.0] };
        let u = crate::geom::norm(crate::geom::cross(t, n));
        let w = crate::geom::cross(n, u);
        let at = crate::geom::add(c, crate::geom::mul(n, d));
        let l = d.abs().max(1e-38) * r.fr(0.5, 2.0);
        let p1 = crate::geom::add(at, crate::geom::mul(w, l));
        let p2 = crate::geom::add(at, crate::geom::mul(u, l));
        let g = |p: [f64; 3]| [f32ish(p[0]), f32ish(p[1]), f32ish(p[2])];
        let mut p = [g(at), g(p1), g(p2)];
        match r.below(40) {
            0 => p[1] = p[0],
            1 => p[2] = p[1],
            2 => p.swap(0, 1),
            3 => p[r.below(3)][r.below(3)] = *r.pick(&[f32::MAX, f32::MIN, 1e-45, -0.0, f32::NAN, f32::INFINITY]),
            _ => (),
        }
        let (uv, rot, mut sc, extra) = gen_surface(r, n, Dialect::Mixed, 0);
        if r.chance(1, 10) {
            sc[r.below(2)] = *r.pick(&[0.0, -0.0, 1e-45, f32::MAX, f32::NAN]);
        }
        planes.push(GPlane { p, texture: tex.next(r), uv, rot, scale: sc, extra });
    };
    match style {
        0 | 1 => {
            for i in 0..k {
                let a = ph + i as f64 * std::f64::consts::TAU / k as f64;
                add(r, [a.cos(), a.sin(), 0.0], scale);
            }
            add(r, [0., 0., 1.], scale);
            add(r, [0., 0., -1.], scale);
        }
        2 => {
            for _ in 0..k {
                let n = rand_dir(r);
                let d = r.fr(0.2, 1.0) * scale;
                add(r, n, d);
            }
        }
        3 => {
            // needle or sheet
            for (n, d) in [([1., 0., 0.], 1.0), ([-1., 0., 0.], 1.0), ([0., 1., 0.], 1e-3), ([0., -1., 0.], 1e-3), ([0., 0., 1.], 1e-3), ([0., 0., -1.], 1e-6)] {
                add(r, n, d * scale);
            }
        }
        4 => {
            // nearly parallel planes
            for i in 0..k {
                let e = 1e-4 * i as f64;
                let n = crate::geom::norm([1.0, e, e * r.fr(-1.0, 1.0)]);
                add(r, n, scale);
            }
        }
        _ => {
            // many planes through one point
            for i in 0..k {
                let a = ph + i as f64 * std::f64::consts::TAU / k.max(1) as f64;
                add(r, crate::geom::norm([a.cos(), a.sin(), 0.7]), scale);
            }
            add(r, [0., 0., -1.], 0.0);
        }
    }
    GBrush { planes, reff: None, oddity: Some("extreme") }
}

/// Group data no editor would write: cycles, self references, repeated ids.
pub fn hostile_groups(r: &mut Rng, m: &mut GMap) {
    let n = m.entities.len();
    let ids: Vec<String> = match r.below(4) {
        3 => (0..r.range(1, 3)).map(|_| value(r)).collect(),
        0 => vec!["1".into()],
        1 => (0..r.range(1, 4)).map(|i| i.to_string()).collect(),
        _ => (0..n).map(|i| if i % 2 == 0 { i.to_string() } else { format!("g{}", i) }).collect(),
    };
    let ring = r.chance(1, 4);
    for i in 0..n {
        if ring {
            m.entities[i].set("_tb_id", &i.to_string());
            m.entities[i].set("_tb_group", &((i + 1) % n).to_string());
            continue;
        }
        if r.chance(2, 3) {
            let id = r.pick(&ids).clone();
            m.entities[i].set("_tb_id", &id);
            m.entities[i].set("_tb_type", "_tb_group");
        }
        if r.chance(2, 3) {
            let g = if r.chance(1, 8) { "nowhere".to_string() } else { r.pick(&ids).clone() };
            m.entities[i].set("_tb_group", &g);
        }
    }
}

/// A valid map with a few random mutations.
pub fn mutated(r: &mut Rng) -> Vec<u8> {
    let o = WOpts {
        ents: (1, 5),
        brushes: (0, 2),
        phong: r.chance(1, 2),
        groups: r.chance(1, 2),
        dangling: true,
        origins: true,
        oddities: true,
        ..WOpts::default()
    };
    let mut w = world::gen(r, &o);
    if r.chance(1, 3) {
        hostile_groups(r, &mut w.map);
    }
    let st = Style::random(r);
    let mut lines = render_lines(r, &w.map, &st);
    for _ in 0..r.below(5) {
        if lines.is_empty() {
            break;
        }
        let i = r.below(lines.len());
        match r.below(11) {
            8 => spice(r, &mut lines[i]),
            9 => lines.insert(i, vocab::unrecognised(r)),
            10 => {
                let c = *r.pick(&WILD);
                let k = *r.pick(&[1usize, 2, 3, 40, 5000]);
                lines.insert(i, std::iter::repeat(c).take(k).collect());
            }
            0 => {
                lines.remove(i);
            }
            1 => {
                let l = lines[i].clone();
                lines.insert(i, l);
            }
            2 => {
                let j = r.below(lines.len());
                lines.swap(i, j);
            }
            3 => lines.insert(i, soup_prop(r)),
            4 => lines.insert(i, soup_plane(r)),
            _ => {
                let mut t: Vec<String> = lines[i].split(' ').map(|s| s.to_string()).collect();
                let k = r.below(t.len());
                match r.below(4) {
                    0 => {
                        t.remove(k);
                    }
                    1 => t.insert(k, word(r)),
                    _ => t[k] = word(r),
                }
                lines[i] = t.join(" ");
            }
        }
    }
    let mut b = join_lines(&lines, &st).into_bytes();
    if r.chance(1, 3) && !b.is_empty() {
        for _ in 0..r.range(1, 6) {
            let i = r.below(b.len());
            match r.below(4) {
                0 => b[i] = r.below(256) as u8,
                1 => b[i] ^= 1 << r.below(8),
                2 => {
                    b.remove(i);
                    if b.is_empty() {
                        break;
                    }
                }
                _ => b.insert(i, *r.pick(&[b'"', b'{', b'}', b'(', b'\n', b'\r', 0, 0xff, b'9', b'-'])),
            }
        }
    }
    if r.chance(1, 4) {
        let k = r.below(b.len() + 1);
        b.truncate(k);
    }
    b
}

pub fn extreme_map(r: &mut Rng) -> Vec<u8> {
    let mut m = GMap::default();
    let n = r.range(1, 4);
    for i in 0..n {
        let mut e = GEntity::default();
        e.set("classname", if i == 0 { "worldspawn" } else { *r.pick(&["cls_0", "cls_1", "func_group", "info", "undefined"]) });
        if r.chance(1, 2) {
            e.set("_phong", "1");
        }
        if r.chance(1, 3) {
            let a = num(r);
            e.set("_phong_angle", &a.replace('"', ""));
        }
        if r.chance(1, 3) {
            let s = format!("{} {} {}", num(r), num(r), num(r)).replace('"', "");
            e.set("origin", &s);
        }
        for _ in 0..r.below(3) {
            e.brushes.push(extreme_brush(r));
        }
        m.entities.push(e);
    }
    if r.chance(1, 2) {
        hostile_groups(r, &mut m);
    }
    render(r, &m, &Style::plain()).into_bytes()
}
