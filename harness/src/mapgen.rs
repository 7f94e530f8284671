//! Workload generator: abstract maps (with the facts the oracle needs kept in
//! exact form) and their rendering to map text.
use crate::geom::{self, Plane, RefBrush, V};
use crate::rng::Rng;
use crate::vocab;

#[derive(Clone, Debug, PartialEq)]
pub enum GUv {
    Std(f32, f32),
    Valve([f32; 3], f32, [f32; 3], f32),
}

/// Three points within some units of the foot of the plane's normal.
fn near_points(r: &mut Rng, n: V, at: V, size: f64) -> [[f32; 3]; 3] {
    let (u, w) = basis(n);
    let mut q = [[0.0f32; 3]; 3];
    for (i, q) in q.iter_mut().enumerate() {
        let a = i as f64 * std::f64::consts::TAU / 3.0 + r.fr(-0.4, 0.4);
        let l = r.fr(20.0, 32.0) * size;
        let p = geom::add(at, geom::add(geom::mul(u, l * a.cos()), geom::mul(w, l * a.sin())));
        *q = p.map(|x| x as f32);
    }
    q
}

#[derive(Clone, Debug)]
pub enum GExtra {
    None,
    Hexen2(f32),
    Quake2(i32, i32, f32),
    Daikatana(i32, i32, f32, [f32; 3]),
}

#[derive(Clone, Debug)]
pub struct GPlane {
    pub p: [[f32; 3]; 3],
    pub texture: String,
    pub uv: GUv,
    pub rot: f32,
    pub scale: [f32; 2],
    pub extra: GExtra,
}

impl GPlane {
    pub fn plane(&self) -> Plane {
        let c = |q: [f32; 3]| [q[0] as f64, q[1] as f64, q[2] as f64];
        Plane::new([c(self.p[0]), c(self.p[1]), c(self.p[2])])
    }
    pub fn tex_key(&self) -> String {
        self.texture.to_lowercase()
    }
}

#[derive(Clone, Debug)]
pub struct GBrush {
    pub planes: Vec<GPlane>,
    pub reff: Option<RefBrush>,
    /// Some: deliberately degenerate, with the reason
    pub oddity: Option<&'static str>,
}

#[derive(Clone, Debug, Default)]
pub struct GEntity {
    pub props: Vec<(String, String)>,
    pub brushes: Vec<GBrush>,
}

impl GEntity {
    /// last assignment of a key wins
    pub fn get(&self, k: &str) -> Option<&str> {
        self.props
            .iter()
            .rev()
            .find(|(a, _)| a == k)
            .map(|(_, v)| v.as_str())
    }
    pub fn set(&mut self, k: &str, v: &str) {
        self.props.push((k.to_string(), v.to_string()));
    }
}

#[derive(Clone, Debug, Default)]
pub struct GMap {
    pub entities: Vec<GEntity>,
}

// ---------------------------------------------------------------- brushes

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Shape {
    Box,
    RotBox,
    Wedge,
    Prism,
    Pyramid,
    Cut,
    Blob,
    Tetra,
    /// a box whose top is a roof of about one degree
    Ridge,
    /// a box cut by faces at exactly 45 degrees
    Diagonal,
    /// a prism with more than 128 sides, so more than 256 corners
    Round,
    /// a prism with more than 256 sides, so that no index into a face fits a byte
    Wheel,
}

pub const SHAPES: [Shape; 10] = [
    Shape::Diagonal,
    Shape::Ridge,
    Shape::Box,
    Shape::RotBox,
    Shape::Wedge,
    Shape::Prism,
    Shape::Pyramid,
    Shape::Cut,
    Shape::Blob,
    Shape::Tetra,
];

fn basis(n: V) -> (V, V) {
    let t = if n[2].abs() < 0.9 {
        [0.0, 0.0, 1.0]
    } else {
        [1.0, 0.0, 0.0]
    };
    let u = geom::norm(geom::cross(t, n));
    (u, geom::cross(n, u))
}

pub fn rand_dir(r: &mut Rng) -> V {
    loop {
        let v = [r.fr(-1.0, 1.0), r.fr(-1.0, 1.0), r.fr(-1.0, 1.0)];
        let l = geom::len(v);
        if l > 0.1 && l <= 1.0 {
            return geom::mul(v, 1.0 / l);
        }
    }
}

pub fn rotate(v: V, axis: V, ang: f64) -> V {
    let (s, c) = ang.sin_cos();
    geom::add(
        geom::add(geom::mul(v, c), geom::mul(geom::cross(axis, v), s)),
        geom::mul(axis, geom::dot(axis, v) * (1.0 - c)),
    )
}

/// (outward normal, distance from centre)
fn shape_planes(r: &mut Rng, shape: Shape) -> Vec<(V, f64)> {
    let s = |r: &mut Rng| r.range(4, 64) as f64 * if r.chance(1, 8) { 2.0 } else { 1.0 };
    let axes: [V; 6] = [
        [1., 0., 0.],
        [-1., 0., 0.],
        [0., 1., 0.],
        [0., -1., 0.],
        [0., 0., 1.],
        [0., 0., -1.],
    ];
    match shape {
        Shape::Box => axes.iter().map(|a| (*a, s(r))).collect(),
        Shape::RotBox => {
            let ax = if r.chance(1, 2) {
                *r.pick(&axes)
            } else {
                rand_dir(r)
            };
            let ang = if r.chance(1, 3) {
                std::f64::consts::FRAC_PI_4 * r.range(1, 7) as f64
            } else {
                r.fr(0.0, 6.28)
            };
            axes.iter().map(|a| (rotate(*a, ax, ang), s(r))).collect()
        }
        Shape::Wedge => {
            let mut v: Vec<(V, f64)> = axes.iter().map(|a| (*a, s(r))).collect();
            // replace two neighbouring sides by a slope
            v.remove(0);
            v.remove(3);
            v.push((
                geom::norm([r.range(1, 3) as f64, 0.0, r.range(1, 3) as f64]),
                r.fr(2.0, 30.0),
            ));
            v
        }
        Shape::Prism | Shape::Round | Shape::Wheel => {
            let k = if shape == Shape::Round {
                r.range(129, 145)
            } else if shape == Shape::Wheel {
                r.range(257, 262)
            } else if r.chance(1, 250) {
                r.range(30, 72)
            } else if r.chance(1, 6) {
                r.range(12, 20)
            } else {
                r.range(3, 10)
            };
            let rad = if k > 200 { 200 } else if k > 100 { 190 } else { r.range(24, 96).max(k * 3 / 2) } as f64;
            let ph = r.fr(0.0, 6.28);
            let mut v: Vec<(V, f64)> = (0..k)
                .map(|i| {
                    let a = ph + i as f64 * std::f64::consts::TAU / k as f64;
                    ([a.cos(), a.sin(), 0.0], rad)
                })
                .collect();
            for z in [1.0, -1.0] {
                let h = if k > 200 { r.range(12, 40) as f64 } else { s(r) };
                v.push(([0., 0., z], h));
            }
            let perm = r.below(3);
            for (n, _) in v.iter_mut() {
                *n = match perm {
                    0 => *n,
                    1 => [n[1], n[2], n[0]],
                    _ => [n[2], n[0], n[1]],
                };
            }
            v
        }
        Shape::Pyramid => {
            let k = r.range(3, 8);
            let tilt = r.fr(0.4, 1.2);
            let ph = r.fr(0.0, 6.28);
            let rad = r.range(16, 64) as f64;
            let mut v: Vec<(V, f64)> = (0..k)
                .map(|i| {
                    let a = ph + i as f64 * std::f64::consts::TAU / k as f64;
                    (
                        [a.cos() * tilt.cos(), a.sin() * tilt.cos(), tilt.sin()],
                        rad,
                    )
                })
                .collect();
            v.push(([0., 0., -1.], s(r)));
            v
        }
        Shape::Cut => {
            let mut v: Vec<(V, f64)> = axes.iter().map(|a| (*a, r.range(24, 64) as f64)).collect();
            for _ in 0..r.range(1, 5) {
                v.push((rand_dir(r), r.fr(20.0, 60.0)));
            }
            v
        }
        Shape::Diagonal => {
            let mut v: Vec<(V, f64)> = axes.iter().map(|a| (*a, r.range(24, 64) as f64)).collect();
            for _ in 0..r.range(1, 6) {
                let n = loop {
                    let n = [0, 1, 2].map(|_| r.range(-1, 1) as f64);
                    if geom::len(n) > 1.1 {
                        break n;
                    }
                };
                // (the same plane through other points would leave open which
                // of the two faces a triangle belongs to)
                let n = geom::norm(n);
                if v.iter().all(|(m, _)| *m != n) {
                    v.push((n, r.fr(20.0, 60.0)));
                }
            }
            if r.chance(1, 3) {
                // only the corners that diagonals cut remain of some sides
                let k = r.below(6);
                v[k].1 = 100.0;
            }
            v
        }
        Shape::Ridge => {
            let mut v: Vec<(V, f64)> = axes.iter().map(|a| (*a, s(r))).collect();
            let (ax, ang) = (rand_dir(r), r.fr(0.0, 6.28));
            let (h, at) = (v[4].1, r.fr(-8.0, 8.0));
            v.remove(4);
            for sgn in [1.0, -1.0] {
                let t: f64 = r.fr(0.003, 0.03);
                // through the line x = at, z = h
                let n = [sgn * t.sin(), 0.0, t.cos()];
                v.push((n, n[0] * at + n[2] * h));
            }
            let turn = r.chance(2, 3);
            v.into_iter().map(|(n, d)| (if turn { rotate(n, ax, ang) } else { n }, d)).collect()
        }
        Shape::Blob => {
            let k = r.range(5, 14);
            (0..k).map(|_| (rand_dir(r), r.fr(16.0, 64.0))).collect()
        }
        Shape::Tetra => {
            let q = [
                [1., 1., 1.],
                [1., -1., -1.],
                [-1., 1., -1.],
                [-1., -1., 1.],
            ];
            let ax = rand_dir(r);
            let ang = r.fr(0.0, 6.28);
            q.iter()
                .map(|n| (rotate(geom::norm(*n), ax, ang), r.fr(10.0, 40.0)))
                .collect()
        }
    }
}

/// Points of a plane whose normal is exactly diagonal, on the unit grid.
fn diagonal_points(r: &mut Rng, n: V, at: V, size: f64) -> Option<[[f32; 3]; 3]> {
    let m = n.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    let n = n.map(|x| x / m);
    if !n.iter().all(|x| x.abs() < 1e-9 || x.abs() > 1.0 - 1e-9) {
        return None;
    }
    let n = n.map(|x| x.round());
    let ks: Vec<usize> = (0..3).filter(|k| n[*k] != 0.0).collect();
    if ks.len() < 2 {
        return None;
    }
    // grid vectors in the plane
    let mut es: Vec<V> = vec![];
    for i in 0..3 {
        for j in i + 1..3 {
            let mut e = [0.0; 3];
            if n[i] != 0.0 && n[j] != 0.0 {
                e[i] = n[j];
                e[j] = -n[i];
                es.push(e);
            } else if n[i] == 0.0 && n[j] != 0.0 && es.is_empty() {
                e[i] = 1.0;
                es.push(e);
            } else if n[j] == 0.0 {
                e[j] = 1.0;
                es.push(e);
            }
        }
    }
    let grid = if size >= 1.0 { 1.0 } else { 1.0 / 64.0 };
    let at = at.map(|x| (x / grid).round() * grid);
    for _ in 0..50 {
        let mut at_random = || {
            let mut p = at;
            for e in &es {
                p = geom::add(p, geom::mul(*e, r.range(-60, 60) as f64 * grid * size.max(1.0).floor()));
            }
            p
        };
        let (a, mut b, mut c) = (at_random(), at_random(), at_random());
        let w = geom::dot(geom::cross(geom::sub(c, a), geom::sub(b, a)), n);
        let (lb, lc) = (geom::dist(a, b), geom::dist(a, c));
        if lb.min(lc) < 20.0 * grid || w.abs() < 0.4 * lb * lc {
            continue;
        }
        if w < 0.0 {
            std::mem::swap(&mut b, &mut c);
        }
        return Some([a, b, c].map(|p| p.map(|x| x as f32)));
    }
    None
}

/// Planes given by corners of the solid, as an editor writes them: neighbours
/// then have points in common, now and then their first two.
fn corner_points(r: &mut Rng, b: &geom::RefBrush, old: &[[[f32; 3]; 3]], snap: f64, size: f64) -> Option<Vec<[[f32; 3]; 3]>> {
    if !b.simple {
        return None;
    }
    let g = |p: V| p.map(|x| if snap > 0.0 { (x / snap).round() * snap } else { x } as f32);
    let d = |p: [f32; 3]| p.map(|x| x as f64);
    let mut out = vec![];
    let pairs = r.chance(1, 2);
    for (f, old) in b.faces.iter().zip(old) {
        let n = f.verts.len();
        if n < 3 {
            out.push(*old);
            continue;
        }
        let i = r.below(n);
        let (mut k, mut l) = (f.verts[i], f.verts[(i + 1) % n]);
        if pairs && k > l {
            std::mem::swap(&mut k, &mut l);
        }
        let m = f.verts[(i + 2 + r.below(n - 2)) % n];
        let (p, q, mut t) = (g(b.verts[k].pos), g(b.verts[l].pos), g(b.verts[m].pos));
        let normal = |t: [f32; 3]| geom::cross(geom::sub(d(t), d(p)), geom::sub(d(q), d(p)));
        if geom::dot(normal(t), b.planes[f.plane].n) < 0.0 {
            // the same plane from the other side of the edge
            for a in 0..3 {
                t[a] = p[a] + (p[a] - t[a]);
            }
        }
        // three points nearly on a line leave the plane to rounding
        let long = geom::dist(d(p), d(q)).max(geom::dist(d(p), d(t))).max(geom::dist(d(q), d(t)));
        let height = geom::len(normal(t)) / long;
        if !(height >= 16.0 * size && height >= 0.1 * long) {
            return None;
        }
        out.push([p, q, t]);
    }
    Some(out)
}

fn plane_points(r: &mut Rng, n: V, at: V, snap: f64, size: f64) -> [[f32; 3]; 3] {
    if r.chance(3, 4) {
        if let Some(p) = diagonal_points(r, n, at, size) {
            return p;
        }
    }
    let (u0, w0) = basis(n);
    let phi = r.fr(0.0, 6.28);
    let (s, c) = phi.sin_cos();
    let axis_aligned = n.iter().filter(|x| x.abs() > 1e-9).count() == 1;
    let (u, w) = if axis_aligned && r.chance(3, 4) {
        (u0, w0)
    } else {
        (
            geom::add(geom::mul(u0, c), geom::mul(w0, s)),
            geom::sub(geom::mul(w0, c), geom::mul(u0, s)),
        )
    };
    let l1 = r.fr(24.0, 128.0) * size;
    let l2 = r.fr(24.0, 128.0) * size;
    let skew = r.fr(-20.0, 20.0) * size;
    let off = geom::add(
        geom::mul(u, r.fr(-30.0, 30.0) * size),
        geom::mul(w, r.fr(-30.0, 30.0) * size),
    );
    let p0 = geom::add(at, off);
    // (v2-v0) x (v1-v0) must point along n:  u x w = n  =>  v2-v0 ~ u, v1-v0 ~ w
    let p1 = geom::add(p0, geom::add(geom::mul(w, l1), geom::mul(u, skew)));
    let p2 = geom::add(p0, geom::mul(u, l2));
    let f = |p: V| {
        let g = |x: f64| {
            if snap > 0.0 {
                ((x / snap).round() * snap) as f32
            } else {
                x as f32
            }
        };
        [g(p[0]), g(p[1]), g(p[2])]
    };
    let mut pts = [f(p0), f(p1), f(p2)];
    let k = r.below(3);
    pts.rotate_left(k);
    pts
}

#[derive(Clone, Debug)]
pub struct TexGen {
    /// candidate texture names as written in the map
    pub names: Vec<String>,
    /// if set, every plane gets its own name with this prefix
    pub unique: bool,
    pub counter: usize,
}

impl TexGen {
    pub fn next(&mut self, r: &mut Rng) -> String {
        if self.unique {
            self.counter += 1;
            format!("u{}_{}", self.counter, r.below(100))
        } else {
            r.pick(&self.names).clone()
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dialect {
    Standard,
    Valve,
    Mixed,
}

pub fn fix_num(x: f64, snap: f64) -> f32 {
    ((x / snap).round() * snap) as f32
}

pub fn gen_surface(
    r: &mut Rng,
    n: V,
    dialect: Dialect,
    extra_kind: usize,
) -> (GUv, f32, [f32; 2], GExtra) {
    let valve = match dialect {
        Dialect::Standard => false,
        Dialect::Valve => true,
        Dialect::Mixed => r.chance(1, 2),
    };
    let off = |r: &mut Rng| match r.below(4) {
        0 => 0.0,
        1 => r.range(-64, 64) as f32,
        2 => fix_num(r.fr(-512.0, 512.0), 1.0 / 16.0),
        _ => r.fr(-200.0, 200.0) as f32,
    };
    let uv = if valve {
        let (u0, w0) = basis(n);
        let ph = r.fr(0.0, 6.28);
        let (s, c) = ph.sin_cos();
        let mut ua = geom::add(geom::mul(u0, c), geom::mul(w0, s));
        let mut va = geom::sub(geom::mul(w0, c), geom::mul(u0, s));
        if r.chance(1, 2) {
            va = geom::mul(va, -1.0);
        }
        if r.chance(1, 4) {
            // axes need not lie in the plane nor be unit length
            ua = geom::mul(rand_dir(r), r.fr(0.5, 2.0));
        }
        let g = |v: V| [v[0] as f32, v[1] as f32, v[2] as f32];
        GUv::Valve(g(ua), off(r), g(va), off(r))
    } else {
        GUv::Std(off(r), off(r))
    };
    let rot = match r.below(5) {
        0 | 1 => 0.0,
        2 => *r.pick(&[90.0f32, 180.0, 270.0, -90.0, 45.0, 360.0]),
        3 => r.range(-359, 359) as f32,
        _ => r.fr(-720.0, 720.0) as f32,
    };
    let sc = |r: &mut Rng| -> f32 {
        let m = match r.below(4) {
            0 => 1.0,
            1 => *r.pick(&[0.5f32, 2.0, 0.25, 4.0]),
            2 => fix_num(r.fr(0.125, 6.0), 1.0 / 64.0).max(0.05),
            _ => r.fr(0.1, 8.0) as f32,
        };
        if r.chance(1, 4) {
            -m
        } else {
            m
        }
    };
    let scale = [sc(r), sc(r)];
    let extra = match extra_kind {
        1 => GExtra::Hexen2(r.range(0, 64) as f32),
        2 => GExtra::Quake2(
            r.range(0, 1 << 26) as i32,
            r.range(0, 512) as i32,
            r.range(0, 1000) as f32,
        ),
        3 => GExtra::Daikatana(
            r.range(0, 1 << 26) as i32,
            r.range(0, 512) as i32,
            r.range(0, 1000) as f32,
            if r.chance(1, 2) {
                [
                    r.range(0, 255) as f32,
                    r.range(0, 255) as f32,
                    r.range(0, 255) as f32,
                ]
            } else {
                [r.f() as f32, r.f() as f32, r.f() as f32]
            },
        ),
        _ => GExtra::None,
    };
    (uv, rot, scale, extra)
}

/// some faces with surface flags and color, some without
pub const MIXED_EXTRA: usize = 4;

#[derive(Clone, Copy, Debug)]
pub struct BrushCfg {
    pub shape: Option<Shape>,
    pub dialect: Dialect,
    pub extra_kind: usize,
    /// 0 = arbitrary decimals
    pub snap: f64,
    pub redundant: bool,
    /// 1: some 30 to 400 units across
    pub size: f64,
    pub max_tries: usize,
    pub require_simple: bool,
}

impl BrushCfg {
    pub fn plain() -> BrushCfg {
        BrushCfg {
            shape: None,
            dialect: Dialect::Mixed,
            extra_kind: 0,
            snap: 1.0,
            redundant: false,
            size: 1.0,
            max_tries: 60,
            require_simple: false,
        }
    }
}

/// A well-conditioned solid around `c`. Falls back to a box when the requested
/// shape cannot be made well-conditioned within the tries.
pub fn gen_brush(r: &mut Rng, c: V, cfg: &BrushCfg, tex: &mut TexGen) -> GBrush {
    for t in 0..cfg.max_tries {
        let shape = if cfg.shape == Some(Shape::Wheel) && t > 15 {
            Shape::Round
        } else if t > cfg.max_tries / 2 && !matches!(cfg.shape, Some(Shape::Round | Shape::Wheel)) {
            Shape::Box
        } else {
            cfg.shape.unwrap_or_else(|| *r.pick(&SHAPES))
        };
        let mut sp = shape_planes(r, shape);
        if cfg.redundant {
            for _ in 0..r.range(1, 3) {
                sp.push((rand_dir(r), r.fr(225.0, 400.0)));
            }
        }
        r.shuffle(&mut sp);
        let mut pts: Vec<[[f32; 3]; 3]> = sp
            .iter()
            .map(|(n, d)| {
                let at = geom::add(c, geom::mul(*n, *d * cfg.size));
                if shape == Shape::Wheel {
                    near_points(r, *n, at, cfg.size)
                } else {
                    plane_points(r, *n, at, cfg.snap, cfg.size)
                }
            })
            .collect();
        let mk = |p: &[[f32; 3]; 3]| {
            let g = |q: [f32; 3]| [q[0] as f64, q[1] as f64, q[2] as f64];
            Plane::new([g(p[0]), g(p[1]), g(p[2])])
        };
        // the generator's convention must match the format's: normals point out
        for p in pts.iter_mut() {
            if mk(p).side(c) > 0.0 {
                p.swap(1, 2);
            }
        }
        let planes: Vec<Plane> = pts.iter().map(mk).collect();
        let reff = match geom::analyse(&planes) {
            Some(x) => x,
            None => continue,
        };
        let (pts, planes, reff) = match r.chance(1, 4).then(|| corner_points(r, &reff, &pts, cfg.snap, cfg.size)).flatten() {
            Some(q) => {
                let pl: Vec<Plane> = q.iter().map(mk).collect();
                match geom::analyse(&pl) {
                    Some(rf) if rf.simple && rf.verts.len() == reff.verts.len() => (q, pl, rf),
                    _ => (pts, planes, reff),
                }
            }
            None => (pts, planes, reff),
        };
        if cfg.require_simple && !reff.simple {
            continue;
        }
        // bounded: keep inside its own cell
        if reff.verts.iter().any(|v| geom::dist(v.pos, c) > 215.0 * cfg.size) {
            continue;
        }
        let gp = pts
            .iter()
            .zip(&planes)
            .map(|(p, pl)| {
                let kind = if cfg.extra_kind == MIXED_EXTRA { *r.pick(&[0, 3, 3]) } else { cfg.extra_kind };
                let (uv, rot, scale, extra) = gen_surface(r, pl.n, cfg.dialect, kind);
                GPlane {
                    p: *p,
                    texture: tex.next(r),
                    uv,
                    rot,
                    scale,
                    extra,
                }
            })
            .collect();
        return GBrush {
            planes: gp,
            reff: Some(reff),
            oddity: None,
        };
    }
    panic!("generator: no brush after {} tries", cfg.max_tries);
}

// ---------------------------------------------------------------- rendering

#[derive(Clone, Debug)]
pub struct Style {
    pub crlf: bool,
    pub comments: bool,
    pub blank: bool,
    pub wide_space: bool,
    pub numeric_noise: bool,
    pub final_newline: bool,
    pub props_after: bool,
    pub trailing_space: bool,
    pub unrecognised: bool,
    pub trailers: bool,
}

impl Style {
    pub fn plain() -> Style {
        Style {
            crlf: false,
            comments: false,
            blank: false,
            wide_space: false,
            numeric_noise: false,
            final_newline: true,
            props_after: false,
            trailing_space: false,
            unrecognised: false,
            trailers: false,
        }
    }
    pub fn random(r: &mut Rng) -> Style {
        Style {
            crlf: r.chance(1, 4),
            comments: r.chance(1, 2),
            blank: r.chance(1, 4),
            wide_space: r.chance(1, 4),
            numeric_noise: r.chance(1, 3),
            final_newline: r.chance(3, 4),
            props_after: r.chance(1, 6),
            trailing_space: r.chance(1, 4),
            unrecognised: r.chance(1, 4),
            trailers: r.chance(1, 6),
        }
    }
}

/// Text for x that parses back to exactly x.
pub fn num(r: &mut Rng, x: f32, noise: bool) -> String {
    let plain = format!("{}", x);
    if !noise {
        return plain;
    }
    let alt = match r.below(12) {
        9 | 10 | 11 => crate::vocab::spell(r, x),
        7 => format!("{:.*}", *r.pick(&[9, 20, 60, 200]), x),
        8 => {
            let (sign, abs) = if plain.starts_with('-') { ("-", &plain[1..]) } else { ("", &plain[..]) };
            format!("{}{}{}", sign, "0".repeat(*r.pick(&[1, 5, 30, 300])), abs)
        }
        0 => format!("{:.1}", x),
        1 => format!("{:.6}", x),
        2 => format!("{:e}", x),
        3 => format!("{:E}", x),
        4 if x >= 0.0 => format!("+{}", plain),
        5 => {
            if x < 0.0 {
                format!("-0{}", &plain[1..])
            } else {
                format!("00{}", plain)
            }
        }
        6 if !plain.contains('.') => format!("{}.", plain),
        _ => plain.clone(),
    };
    match alt.parse::<f32>() {
        Ok(y) if y.to_bits() == x.to_bits() => alt,
        _ => plain,
    }
}

pub fn plane_line(r: &mut Rng, p: &GPlane, st: &Style) -> String {
    let mut parts: Vec<String> = Vec::new();
    let nn = st.numeric_noise;
    for q in &p.p {
        parts.push("(".into());
        for x in q {
            parts.push(num(r, *x, nn));
        }
        parts.push(")".into());
    }
    parts.push(p.texture.clone());
    match &p.uv {
        GUv::Std(u, v) => {
            parts.push(num(r, *u, nn));
            parts.push(num(r, *v, nn));
        }
        GUv::Valve(ua, uo, va, vo) => {
            for (a, o) in [(ua, uo), (va, vo)] {
                parts.push("[".into());
                for x in a {
                    parts.push(num(r, *x, nn));
                }
                parts.push(num(r, *o, nn));
                parts.push("]".into());
            }
        }
    }
    parts.push(num(r, p.rot, nn));
    parts.push(num(r, p.scale[0], nn));
    parts.push(num(r, p.scale[1], nn));
    match &p.extra {
        GExtra::None => (),
        GExtra::Hexen2(x) => parts.push(num(r, *x, nn)),
        GExtra::Quake2(a, b, c) => {
            parts.push(a.to_string());
            parts.push(b.to_string());
            parts.push(num(r, *c, nn));
        }
        GExtra::Daikatana(a, b, c, col) => {
            parts.push(a.to_string());
            parts.push(b.to_string());
            parts.push(num(r, *c, nn));
            for x in col {
                parts.push(num(r, *x, nn));
            }
        }
    }
    let mut s = String::new();
    for (i, t) in parts.iter().enumerate() {
        if i > 0 {
            s.push_str(if st.wide_space && r.chance(1, 4) {
                *r.pick(&["  ", "\t", "   ", " \t "])
            } else {
                " "
            });
        }
        s.push_str(t);
    }
    s
}

pub fn render_lines(r: &mut Rng, m: &GMap, st: &Style) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    if st.comments {
        out.push("// Game: Quake".into());
        out.push("// Format: Valve".into());
    }
    let noise = |r: &mut Rng, out: &mut Vec<String>| {
        if st.comments && r.chance(1, 4) {
out.push(vocab::comment(r));
        }
        if st.blank && r.chance(1, 4) {
            out.push(String::new());
        }
        if st.unrecognised && r.chance(1, 6) {
            out.push(vocab::unrecognised(r));
        }
    };
    for (i, e) in m.entities.iter().enumerate() {
        if st.comments {
            out.push(format!("// entity {}", i));
        }
        noise(r, &mut out);
        out.push("{".into());
        let split = if st.props_after {
            r.below(e.props.len() + 1)
        } else {
            e.props.len()
        };
        let mut prop = |r: &mut Rng, out: &mut Vec<String>, k: &str, v: &str| {
            let gap = if st.wide_space && r.chance(1, 4) {
                *r.pick(&["  ", "\t", ""])
            } else {
                " "
            };
            out.push(format!("\"{}\"{}\"{}\"", k, gap, v));
        };
        for (k, v) in &e.props[..split] {
            noise(r, &mut out);
            prop(r, &mut out, k, v);
        }
        for (j, b) in e.brushes.iter().enumerate() {
            if st.comments {
                out.push(format!("// brush {}", j));
            }
            out.push("{".into());
            for p in &b.planes {
                noise(r, &mut out);
                out.push(plane_line(r, p, st));
            }
            noise(r, &mut out);
            out.push("}".into());
        }
        for (k, v) in &e.props[split..] {
            noise(r, &mut out);
            prop(r, &mut out, k, v);
        }
        noise(r, &mut out);
        out.push("}".into());
    }
    if st.trailers {
        for l in out.iter_mut() {
            if l.starts_with(|c| c == '{' || c == '}' || c == '"') && r.chance(1, 5) {
                l.push_str(&vocab::trailer(r));
            }
        }
    }
    if st.trailing_space {
        for l in out.iter_mut() {
            if r.chance(1, 4) {
                l.push_str(*r.pick(&[" ", "\t", "  "]));
            }
        }
    }
    out
}

pub fn join_lines(lines: &[String], st: &Style) -> String {
    let nl = if st.crlf { "\r\n" } else { "\n" };
    let mut s = lines.join(nl);
    if st.final_newline {
        s.push_str(nl);
    }
    s
}

pub fn render(r: &mut Rng, m: &GMap, st: &Style) -> String {
    let l = render_lines(r, m, st);
    join_lines(&l, st)
}
