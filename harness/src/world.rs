//! Workload worlds: a map plus the configuration it is built with.
use crate::geom::V;
use crate::mapgen::*;
use crate::rng::Rng;
use crate::vocab;
use crate::sut::{Cfg, Col, Def, Et, Forge, Pat, Vis};
use quarchitect::game_data::forge::PropertyData;

#[derive(Clone, Debug)]
pub struct WOpts {
    pub ents: (i64, i64),
    pub brushes: (i64, i64),
    /// one texture name per face
    pub unique_tex: bool,
    /// chance in 16 that a texture has no texture info
    pub missing_tex: u32,
    pub blacklist: bool,
    pub phong: bool,
    pub groups: bool,
    pub dangling: bool,
    pub origins: bool,
    /// coordinates reach this far from the world origin
    pub reach: f64,
    /// scale of the brushes, see BrushCfg
    pub size: f64,
    pub dialect: Dialect,
    /// None: chosen per map
    pub extra: Option<usize>,
    pub snap: Option<f64>,
    pub require_simple: bool,
    pub redundant: bool,
    pub shape: Option<Shape>,
    /// the first brush has hundreds of corners
    pub round: bool,
    /// every class is a brush class with these
    pub vis: Option<Vis>,
    pub col: Option<Col>,
    /// some classes are point classes or undefined
    pub mixed_defs: bool,
    pub oddities: bool,
}

impl Default for WOpts {
    fn default() -> WOpts {
        WOpts {
            ents: (1, 5),
            brushes: (0, 3),
            unique_tex: false,
            missing_tex: 3,
            blacklist: false,
            phong: false,
            groups: false,
            dangling: false,
            origins: false,
            reach: 2000.0,
            size: 1.0,
            dialect: Dialect::Mixed,
            extra: None,
            snap: None,
            require_simple: false,
            redundant: false,
            shape: None,
            round: false,
            vis: Some(Vis::Mesh),
            col: Some(Col::Convex),
            mixed_defs: false,
            oddities: false,
        }
    }
}

pub struct World {
    pub map: GMap,
    pub cfg: Cfg,
    /// brushes are placed in disjoint cells; this hands out the next
    cells: Vec<V>,
}

pub const TEX_NAMES: [&str; 12] = [
    "brick1",
    "BRICK2",
    "Metal/Plate_3",
    "sky1",
    "{grate",
    "+0button",
    "~light-a",
    "special/clip",
    "special/SKIP",
    "d_floor.x",
    "e1u1/wndow0_8",
    "a",
];

pub fn cells(r: &mut Rng, reach: f64, size: f64) -> Vec<V> {
    let step = 440.0 * size;
    let mut base = [0.0; 3];
    for b in base.iter_mut() {
        let m = (reach - 5.0 * step).max(0.0);
        *b = (r.fr(-m, m) / 16.0).round() * 16.0;
    }
    let mut out = vec![];
    for x in -2i32..3 {
        for y in -2i32..3 {
            for z in -2i32..3 {
                let j = |r: &mut Rng, k: i32, b: f64| {
                    (b + k as f64 * step + r.range(-2, 2) as f64 * size).clamp(-reach, reach)
                };
                out.push([j(r, x, base[0]), j(r, y, base[1]), j(r, z, base[2])]);
            }
        }
    }
    // clamping may merge cells; keep distinct ones
    let mut keep: Vec<V> = vec![];
    r.shuffle(&mut out);
    for c in out {
        if keep.iter().all(|k| {
            (0..3).any(|a| (k[a] - c[a]).abs() >= step - 5.0 * size)
        }) {
            keep.push(c);
        }
    }
    keep
}

pub fn rand_et(r: &mut Rng) -> Et {
    match r.below(3) {
        0 => Et::Placeholder,
        1 => Et::Class(format!("Class{}", r.below(50))),
        _ => Et::Prefab(format!("res://p{}.tscn", r.below(50))),
    }
}

pub fn gen(r: &mut Rng, o: &WOpts) -> World {
    let n = r.range(o.ents.0, o.ents.1) as usize;
    let extra = o.extra.unwrap_or_else(|| *r.pick(&[0, 0, 0, 1, 2, 3, 3, MIXED_EXTRA]));
    let mut tex = TexGen {
        names: {
            let all: &[&str] = if r.chance(1, 2) { &TEX_NAMES } else { &vocab::TEXTURES };
            let mut v: Vec<String> = all.iter().map(|s| s.to_string()).collect();
            r.shuffle(&mut v);
            v.truncate(r.range(1, 7) as usize);
            v
        },
        unique: o.unique_tex,
        counter: 0,
    };
    let mut cs = cells(r, o.reach, o.size);
    let ws = r.below(n);
    let mut map = GMap::default();
    let mut round = o.round;
    let nclass = r.range(1, 5) as usize;
    for i in 0..n {
        let mut e = GEntity::default();
        if i == ws {
            e.set("classname", "worldspawn");
        } else {
            e.set("classname", &format!("cls_{}", r.below(nclass)));
        }
        e.set("uid", &(1000 + i).to_string());
        let nb = r.range(o.brushes.0, o.brushes.1);
        for _ in 0..nb {
            let c = match cs.pop() {
                Some(c) => c,
                None => break,
            };
            if o.oddities && r.chance(1, 6) {
                e.brushes.push(odd_brush(r, c, o.size, &mut tex));
                continue;
            }
            let cfg = BrushCfg {
                shape: if round { Some(if r.chance(1, 2) { Shape::Wheel } else { Shape::Round }) } else { o.shape },
                dialect: o.dialect,
                extra_kind: extra,
                snap: o.snap.unwrap_or_else(|| {
                    if round {
                        0.0
                    } else if o.size < 1.0 {
                        *r.pick(&[1.0 / 1024.0, 0.0])
                    } else {
                        *r.pick(&[1.0, 1.0, 1.0, 0.125, 1.0 / 64.0, 0.0])
                    }
                }),
                redundant: o.redundant && r.chance(1, 3),
                size: o.size,
                max_tries: 200,
                require_simple: o.require_simple,
            };
            round = false;
            e.brushes.push(gen_brush(r, c, &cfg, &mut tex));
        }
        if o.phong && r.chance(2, 3) {
            e.set("_phong", *r.pick(&["1", "1", "1", "1", "1", "1", "1", "1", "0", "", "2", "01", "true", " 1", "1 ", "1.0", "+1", "11", "-1", "1\t"]));
            match r.below(4) {
                0 => (),
                1 => e.set("_phong_angle", *r.pick(&["nope", "", "45x", "-", " 45", "60 ", "30 60", "4,5"])),
                _ => {
                    let a = match r.below(4) {
                        3 => match r.below(3) {
                            0 => format!("{}", r.fr(-400.0, 800.0) as f32),
                            1 => r.range(-360, 720).to_string(),
                            _ => (*r.pick(&["181", "200", "270", "359.99", "360", "405", "540", "720", "-1", "-45", "-90", "-180", "-360", "999999", "1e30", "-1e30", "inf", "-inf", "-0"])).to_string(),
                        },
                        0 => r.range(0, 180).to_string(),
                        1 => format!("{:.3}", r.fr(0.0, 180.0)),
                        _ => (*r.pick(&["45", "89", "90", "60", "30", "135", "0", "1"])).to_string(),
                    };
                    e.set("_phong_angle", &a)
                }
            }
        }
        if o.origins && i != ws && r.chance(1, 2) {
            let f = |r: &mut Rng| match r.below(6) {
                4 => {
                    let x = if r.chance(1, 2) { r.range(-512, 512) as f32 / 4.0 } else { r.range(-2048, 2048) as f32 };
                    vocab::spell(r, x)
                }
                5 if r.chance(1, 6) => r.pick(&vocab::NOT_NUMBERS).to_string(),
                0 | 5 => r.range(-4096, 4096).to_string(),
                1 => format!("{:.3}", r.fr(-o.reach, o.reach)),
                2 => r.range(-64, 64).to_string(),
                _ => format!("{}", r.fr(-o.reach, o.reach) as f32),
            };
            let s = match r.below(11) {
                10 => match r.below(4) {
                    0 => format!("{}  {} {}", f(r), f(r), f(r)),
                    1 => format!(" {} {} {}", f(r), f(r), f(r)),
                    2 => format!("{}\t{} {}", f(r), f(r), f(r)),
                    _ => format!("{},{},{}", f(r), f(r), f(r)),
                },
                0 => f(r),
                1 => format!("{} {}", f(r), f(r)),
                2 => format!("{} x {}", f(r), f(r)),
                3 => format!("{} {} {} {}", f(r), f(r), f(r), f(r)),
                4 if r.chance(1, 3) => String::new(),
                _ => format!("{} {} {}", f(r), f(r), f(r)),
            };
            e.set("origin", &s);
        }
        if r.chance(1, 3) {
            vocab::chatter(r, &mut e, &|_| false);
        }
        map.entities.push(e);
    }
    if o.groups {
        add_groups(r, &mut map, ws, o.dangling);
    }
    // configuration
    let mut cfg = Cfg::default();
    let mut keys: Vec<String> = map
        .entities
        .iter()
        .flat_map(|e| e.brushes.iter().flat_map(|b| b.planes.iter().map(|p| p.tex_key())))
        .collect();
    keys.sort();
    keys.dedup();
    for k in &keys {
        if !r.chance(o.missing_tex, 16) {
            let d = |r: &mut Rng| match r.below(3) {
                0 => *r.pick(&[16u32, 32, 64, 128, 256]),
                1 => r.range(1, 512) as u32,
                _ if r.chance(1, 30) => *r.pick(&[1u32, 255, 257, 1023, 4096, 32768, 65535, 65536, 65537, 131072, 70001]),
                _ => 64,
            };
            cfg.tex.push((k.clone(), (d(r), d(r))));
        }
        if o.blacklist {
            if r.chance(1, 5) {
                cfg.bl_brush.push(k.clone());
            }
            if r.chance(1, 5) {
                cfg.bl_plane.push(k.clone());
            }
        }
    }
    cfg.tex.push(("not_in_map".into(), (8, 8)));
    let crowded = r.chance(1, 150);
    if crowded {
        // tables of hundreds of entries that nobody asks for
        for i in 0..r.range(60, 700) {
            let n = if r.chance(1, 2) { format!("tex{:04}", i) } else { format!("{}{}", r.pick(&TEX_NAMES).to_lowercase(), i) };
            if keys.contains(&n) {
                continue;
            }
            cfg.tex.push((n.clone(), (8 * r.range(1, 9) as u32, 16)));
            if o.blacklist {
                cfg.bl_brush.push(n.clone());
                cfg.bl_plane.push(n);
            }
        }
        r.shuffle(&mut cfg.tex);
        r.shuffle(&mut cfg.bl_brush);
        r.shuffle(&mut cfg.bl_plane);
    }
    let mut classes: Vec<String> = (0..nclass).map(|i| format!("cls_{}", i)).collect();
    classes.push("worldspawn".into());
    for c in &classes {
        cfg.forge.push(Forge {
            class_name: c.clone(),
            props: vec![("uid".into(), PropertyData::Integer(-1))],
        });
        if o.mixed_defs && c != "worldspawn" && r.chance(1, 5) {
            continue;
        }
        let v = o.vis.unwrap_or_else(|| if r.chance(3, 4) { Vis::Mesh } else { Vis::None });
        let k = o
            .col
            .unwrap_or_else(|| *r.pick(&[Col::None, Col::Convex, Col::Concave, Col::Convex, Col::Concave]));
        let point = o.mixed_defs && r.chance(1, 5);
        cfg.defs.push(Def {
            classname: c.clone(),
            brush: if point { None } else { Some((v, k)) },
            et: rand_et(r),
            comp: if r.chance(1, 3) {
                Some(format!("script{}.gd", r.below(9)))
            } else {
                None
            },
            pat: *r.pick(&[Pat::Properties, Pat::Dictionary, Pat::Metadata]),
        });
    }
    r.shuffle(&mut cfg.defs);
    r.shuffle(&mut cfg.forge);
    r.shuffle(&mut cfg.tex);
    World { map, cfg, cells: cs }
}

impl World {
    pub fn next_cell(&mut self) -> Option<V> {
        self.cells.pop()
    }
}

/// Group ids unique, references acyclic, optionally some to no group.
pub fn add_groups(r: &mut Rng, map: &mut GMap, ws: usize, dangling: bool) {
    let n = map.entities.len();
    let mut order: Vec<usize> = (0..n).filter(|i| *i != ws).collect();
    r.shuffle(&mut order);
    let numeric = r.chance(3, 4);
    let mut ids: Vec<String> = vec![];
    let deep = r.chance(1, 4);
    // ids that are the same number in another spelling are different ids
    let spell = |r: &mut Rng, k: usize| match k % 5 {
        0 => format!("{}", k / 5 + 1),
        1 => format!("0{}", k / 5 + 1),
        2 => format!("+{}", k / 5 + 1),
        3 => format!("{}.0", k / 5 + 1),
        _ => format!("{}{}", k / 5 + 1, *r.pick(&[" ", "e0", "_", "\t", "\u{a0}"])),
    };
    let spelled = r.chance(1, 5);
    for i in order {
        if !ids.is_empty() && r.chance(3, 4) {
            let g = if deep {
                ids.last().unwrap().clone()
            } else {
                r.pick(&ids).clone()
            };
            map.entities[i].set("_tb_group", &g);
        } else if dangling && r.chance(1, 3) {
            map.entities[i].set("_tb_group", *r.pick(&["9999", "", "-7", "none", "01 ", "1x", "+01"]));
        }
        if r.chance(1, 2) || deep {
            let id = if spelled {
                spell(r, ids.len())
            } else if numeric {
                (ids.len() + 1).to_string()
            } else {
                format!("g{}", ids.len())
            };
            map.entities[i].set("_tb_id", &id);
            map.entities[i].set("_tb_type", *r.pick(&["_tb_group", "_tb_layer"]));
            if r.chance(1, 2) {
                map.entities[i].set("_tb_name", &format!("Group {}", id));
            }
            ids.push(id);
        }
    }
    if r.chance(1, 10) {
        // even worldspawn may own a group
        let id = format!("{}", 500 + ids.len() + r.below(10));
        map.entities[ws].set("_tb_id", &id);
        for i in 0..n {
            if i != ws && map.entities[i].get("_tb_group").is_none() && r.chance(1, 3) {
                map.entities[i].set("_tb_group", &id);
            }
        }
    }
}

/// A brush that encloses nothing: it must contribute no geometry at all.
pub fn odd_brush(r: &mut Rng, c: V, size: f64, tex: &mut TexGen) -> GBrush {
    let mut b = gen_brush(
        r,
        c,
        &BrushCfg {
            shape: Some(Shape::Box),
            require_simple: true,
            max_tries: 200,
            size,
            snap: if size < 1.0 { 1.0 / 1024.0 } else { 1.0 },
            ..BrushCfg::plain()
        },
        tex,
    );
    b.reff = None;
    match r.below(5) {
        0 => {
            b.planes.clear();
            b.oddity = Some("no planes");
        }
        1 => {
            b.planes.truncate(2);
            b.oddity = Some("two planes");
        }
        2 => {
            for p in b.planes.iter_mut() {
                p.p.swap(0, 1);
            }
            b.oddity = Some("inside out");
        }
        3 => {
            for p in b.planes.iter_mut() {
                p.p[2] = p.p[1];
            }
            b.oddity = Some("zero-area planes");
        }
        _ => {
            for p in b.planes.iter_mut() {
                p.p[0] = p.p[1];
            }
            b.oddity = Some("repeated points");
        }
    }
    b
}
