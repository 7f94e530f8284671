//! Oracles for brush geometry: vertices, triangles, normals, texture mapping,
//! surfaces, collision shapes and worldspawn layers.
use crate::ensure;
use crate::crowd;
use crate::fw::*;
use crate::geom::{self, RefBrush, V};
use crate::mapgen::*;
use crate::rng::{hash_str, mix, Rng};
use crate::scene::*;
use crate::sut::{self, Cfg, Col, Vis};
use crate::vocab;
use crate::world::{self, WOpts, World};
use quarchitect::scene_tree::*;
use std::collections::BTreeMap;

fn v3s(v: &[quarchitect::Vector3]) -> Vec<V> {
    v.iter().map(|x| sut::v3(*x)).collect()
}

pub fn run_world(ctx: &mut Ctx, r: &mut Rng, w: &World, st: &Style) -> Result<Vec<SceneTreeNode>, Fail> {
    let text = render(r, &w.map, st);
    ctx.input("input.map", text.as_bytes());
    ctx.input("config.txt", format!("{:#?}", w.cfg).as_bytes());
    ctx.sample(|| text.clone());
    Ok(sut::run_ok(&text, &w.cfg)?)
}

fn fpr(tag: &str, parts: &[i64]) -> u64 {
    parts.iter().fold(hash_str(tag), |h, p| mix(h, *p as u64))
}

fn q(x: f64) -> i64 {
    (x * 8.0).round() as i64
}

/// A distinct solid: its planes, quantised.
pub fn brush_fp(r: &RefBrush) -> u64 {
    let mut v: Vec<i64> = vec![];
    for p in &r.planes {
        v.extend([q(p.n[0] * 100.0), q(p.n[1] * 100.0), q(p.n[2] * 100.0), q(p.d)]);
    }
    fpr("brush", &v)
}

fn nearest(p: V, pts: &[V]) -> f64 {
    pts.iter().map(|x| geom::dist(*x, p)).fold(f64::INFINITY, f64::min)
}

fn same_set(what: &str, got: &[V], want: &[V], tol: f64) -> Result<(), String> {
    for g in got {
        if !geom::finite(*g) {
            return Err(format!("{}: non-finite vertex {:?}", what, g));
        }
        let d = nearest(*g, want);
        if d > tol {
            return Err(format!(
                "{}: emitted vertex {:?} is not a corner of the solid (nearest {:.4} away)",
                what, g, d
            ));
        }
    }
    for x in want {
        let d = nearest(*x, got);
        if d > tol {
            return Err(format!(
                "{}: corner {:?} of the solid is missing (nearest {:.4} away)",
                what, x, d
            ));
        }
    }
    Ok(())
}

fn reach(r: &mut Rng) -> f64 {
    *r.pick(&[512.0, 2048.0, 4096.0, 8192.0])
}

/// Scale of the brushes and how far from the world origin they may lie: from a
/// few units to the size of a whole world.
fn scale(r: &mut Rng) -> (f64, f64) {
    match r.below(12) {
        0 => (0.05, *r.pick(&[64.0, 512.0])),
        1 => (0.2, *r.pick(&[512.0, 2048.0])),
        2 => (4.0, *r.pick(&[2048.0, 8192.0, 32768.0])),
        3 => (16.0, *r.pick(&[8192.0, 32768.0])),
        4 if r.chance(1, 2) => (40.0, 32768.0),
        _ => (1.0, reach(r)),
    }
}

// ================================================================= C06

pub fn c06(ctx: &mut Ctx, r: &mut Rng) -> Res {
    if crowd::called(r, 1000) {
        let what = *r.pick(&[crowd::Judge::Collision, crowd::Judge::Tiling]);
        return crowd::judge(ctx, r, what);
    }
    let (size, reach) = scale(r);
    let o = WOpts {
        round: size >= 1.0 && r.chance(1, 2500),
        ents: (1, 2),
        brushes: (1, 3),
        unique_tex: true,
        missing_tex: 0,
        reach,
        size,
        redundant: true,
        oddities: true,
        extra: Some(0),
        ..WOpts::default()
    };
    let w = world::gen(r, &o);
    let tree = run_world(ctx, r, &w, &Style::plain())?;
    let view = view(&w.map, &tree, false)?;
    for ev in &view.ents {
        let e = &w.map.entities[ev.ent];
        let empty = vec![];
        let surfaces = ev.vis.map(|(_, m)| m).unwrap_or(&empty);
        let mut seen = 0;
        let shapes: Vec<&_> = match ev.col {
            Some((_, CollisionGeometry::Convex(s))) => s.iter().collect(),
            _ => vec![],
        };
        for (bi, b) in e.brushes.iter().enumerate() {
            let r = match &b.reff {
                Some(r) => r,
                None => {
                    for p in &b.planes {
                        let k = Some(p.tex_key());
                        ensure!(
                            !surfaces.iter().any(|s| s.texture == k),
                            "entity {} brush {} ({}) encloses nothing but has visible faces",
                            ev.ent, bi, b.oddity.unwrap_or("?")
                        );
                    }
                    ctx.count("brushes that enclose nothing", 1);
                    continue;
                }
            };
            let m = r.verts.iter().map(|v| mag(v.pos)).fold(0.0, f64::max);
            let tol = r.tol;
            let mut all = vec![];
            for f in &r.faces {
                let key = Some(b.planes[f.plane].tex_key());
                let ss: Vec<_> = surfaces.iter().filter(|s| s.texture == key).collect();
                let want: Vec<V> = f.verts.iter().map(|v| r.verts[*v].pos).collect();
                if want.is_empty() {
                    ensure!(
                        ss.is_empty(),
                        "entity {} brush {} plane {}: does not touch the solid but has a face",
                        ev.ent, bi, f.plane
                    );
                    ctx.count("redundant planes", 1);
                    continue;
                }
                ensure!(
                    ss.len() == 1,
                    "entity {} brush {} plane {}: {} surfaces for its texture {:?}",
                    ev.ent, bi, f.plane, ss.len(), key
                );
                seen += 1;
                let got = v3s(&ss[0].vertices);
                same_set(&format!("entity {} brush {} plane {}", ev.ent, bi, f.plane), &got, &want, tol)?;
                if r.simple {
                    ensure!(
                        got.len() == want.len(),
                        "entity {} brush {} plane {}: {} vertices for a face with {} corners",
                        ev.ent, bi, f.plane, got.len(), want.len()
                    );
                }
                all.extend(want);
                ctx.count("faces compared", 1);
                ctx.count("corners compared", f.verts.len() as u64);
            }
            // the convex shape built from the same solid
            let hit = shapes.iter().any(|s| {
                !s.points.is_empty() && same_set("convex", &v3s(&s.points), &all, tol).is_ok()
            });
            ensure!(
                hit,
                "entity {} brush {}: no convex collision shape has exactly the solid's corners",
                ev.ent, bi
            );
            ctx.count("solids", 1);
            ctx.peak("corners of a solid", r.verts.len() as u64);
            ctx.peak("distance from the world origin", m as u64);
            ctx.fp(brush_fp(r));
        }
        ensure!(
            surfaces.len() == seen,
            "entity {}: {} surfaces for {} faces",
            ev.ent, surfaces.len(), seen
        );
    }
    Ok(())
}

// ================================================================= meshes

#[derive(Clone, Copy, Default)]
pub struct Want {
    pub tri: bool,
    pub normal: bool,
    pub uv: bool,
    pub part: bool,
}

struct Tri {
    s: usize,
    c: [usize; 3],
    /// too thin to tell which of several faces it belongs to
    vague: bool,
}

/// How far the area of the triangles on a face may be off.
fn room(r: &RefBrush, area: f64) -> f64 {
    1e-3 * area + 4.0 * area.sqrt() * r.tol
}

/// Every triangle to the visible face it covers; every face covered exactly.
fn assign<'a>(
    cfg: &Cfg,
    e: &GEntity,
    ent: usize,
    mesh: &'a Vec<MeshSurface>,
) -> Result<Vec<(FaceId, Vec<Tri>)>, String> {
    let vis = visible_faces(cfg, e);
    let mut out: Vec<(FaceId, Vec<Tri>, f64)> = vec![];
    for (f, _) in &vis {
        let a = e.brushes[f.brush].reff.as_ref().unwrap().faces[f.plane].area;
        out.push((*f, vec![], a));
    }
    let flat = phong_of(e).is_none();
    for (si, s) in mesh.iter().enumerate() {
        surface_shape(ent, s)?;
        if mesh[..si].iter().any(|o| o.texture == s.texture) {
            return Err(format!("entity {}: two surfaces for texture {:?}", ent, s.texture));
        }
        let pos = v3s(&s.vertices);
        for t in s.indices.chunks(3) {
            let c = [t[0], t[1], t[2]];
            let p = [pos[c[0]], pos[c[1]], pos[c[2]]];
            if p.iter().any(|x| !geom::finite(*x)) {
                return Err(format!("entity {} surface {:?}: non-finite vertex", ent, s.texture));
            }
            let area = geom::len(tri_area(p[0], p[1], p[2]));
            let longest = (0..3).map(|i| geom::dist(p[i], p[(i + 1) % 3])).fold(0.0, f64::max);
            let mut best: Option<(f64, usize)> = None;
            let (mut open_to, mut thick) = (0, 0.0f64);
            for (k, (f, key)) in vis.iter().enumerate() {
                if *key != s.texture {
                    continue;
                }
                let r = e.brushes[f.brush].reff.as_ref().unwrap();
                let face = &r.faces[f.plane];
                let tol = 2.0 * r.tol;
                if mag(geom::sub(face.mean, p[0])) > 2.0 * r.radius + 1.0
                    || p.iter().any(|x| geom::polygon_excess(r, face, *x) > tol)
                {
                    continue;
                }
                open_to += 1;
                thick = thick.max(4.0 * tol);
                // among coplanar repeats prefer matching attributes, then room left
                let gp = &e.brushes[f.brush].planes[f.plane];
                let mut score = 0.0;
                for i in c {
                    if flat {
                        score += geom::dist(sut::v3(s.normals[i]), r.planes[f.plane].n);
                    }
                    if let (Some(u), Some(k)) = (&s.uvs, key) {
                        let want = expect_uv(gp, cfg.tex_size(k).unwrap(), pos[i]);
                        let d = want
                            .iter()
                            .map(|(w, _)| (w[0] - u[i].x() as f64).abs() + (w[1] - u[i].y() as f64).abs())
                            .fold(f64::INFINITY, f64::min);
                        score += d.min(10.0);
                    }
                    if let Some(cs) = &s.colors {
                        if let GExtra::Daikatana(_, _, _, col) = &gp.extra {
                            score += ((cs[i].r - col[0]).abs() + (cs[i].g - col[1]).abs() + (cs[i].b - col[2]).abs())
                                .min(10.0) as f64;
                        }
                    }
                    let (t, h) = &s.tangents[i];
                    let d = expect_tangent(gp)
                        .iter()
                        .map(|(w, wh)| {
                            geom::dist(geom::norm(sut::v3(*t)), geom::norm(*w)) + if wh == &(*h as f64) { 0.0 } else { 1.0 }
                        })
                        .fold(f64::INFINITY, f64::min);
                    score += if d.is_finite() { d } else { 10.0 };
                }
                if out[k].2 < area * 0.5 - room(r, face.area) {
                    score += 100.0;
                }
                // the same triangle twice belongs to two coplanar faces
                if area > longest * r.tol && out[k].1.iter().any(|t| t.s == si && (0..3).all(|i| pos[t.c[i]] == p[i])) {
                    score += 50.0;
                }
                if best.map_or(true, |(b, _)| score < b) {
                    best = Some((score, k));
                }
            }
            match best {
                Some((_, k)) => {
                    let vague = open_to > 1 && area <= longest * thick;
                    out[k].1.push(Tri { s: si, c, vague });
                    out[k].2 -= area;
                }
                None => {
                    return Err(format!(
                        "entity {} surface {:?}: triangle {:?} lies on no visible face of that texture",
                        ent, s.texture, p
                    ))
                }
            }
        }
    }
    for (f, tris, left) in &out {
        let r = e.brushes[f.brush].reff.as_ref().unwrap();
        let a = r.faces[f.plane].area;
        let tol = room(r, a);
        if left.abs() > tol {
            return Err(format!(
                "entity {} brush {} plane {} (texture {:?}): its face has area {:.3}, its {} triangles cover {:.3}",
                ent,
                f.brush,
                f.plane,
                e.brushes[f.brush].planes[f.plane].texture,
                a,
                tris.len(),
                a - left
            ));
        }
    }
    Ok(out.into_iter().map(|(f, t, _)| (f, t)).collect())
}

fn inside_tri(n: V, p: &[V; 3], x: V, slack: f64) -> bool {
    // clockwise about n
    for i in 0..3 {
        let a = p[i];
        let b = p[(i + 1) % 3];
        let edge = geom::sub(b, a);
        let l = geom::len(edge);
        if l < 1e-9 {
            return false;
        }
        let inward = geom::mul(geom::cross(edge, n), 1.0 / l);
        if geom::dot(inward, geom::sub(x, a)) < slack {
            return false;
        }
    }
    true
}

pub fn eval_entity(ctx: &mut Ctx, r: &mut Rng, cfg: &Cfg, map: &GMap, ev: &EView, want: Want) -> Res {
    let e = &map.entities[ev.ent];
    let ent = ev.ent;
    let vis = if shows_mesh(cfg, e) { visible_faces(cfg, e) } else { vec![] };
    let mesh = match ev.vis {
        Some((_, m)) => m,
        None => {
            ensure!(
                vis.is_empty(),
                "entity {}: {} visible faces but no visual geometry",
                ent, vis.len()
            );
            return Ok(());
        }
    };
    ensure!(
        shows_mesh(cfg, e),
        "entity {}: has visual geometry although its class shows none",
        ent
    );
    let faces = assign(cfg, e, ent, mesh)?;
    if want.part {
        for s in mesh {
            ensure!(
                !s.vertices.is_empty(),
                "entity {}: empty surface {:?}",
                ent, s.texture
            );
            let mut used = vec![false; s.vertices.len()];
            s.indices.iter().for_each(|i| used[*i] = true);
            ensure!(
                used.iter().all(|u| *u),
                "entity {} surface {:?}: vertices that no triangle uses",
                ent, s.texture
            );
            ensure!(
                s.uvs.is_some() == s.texture.is_some(),
                "entity {} surface {:?}: texture coordinates present: {}",
                ent, s.texture, s.uvs.is_some()
            );
            // where a color is lost because other faces have none, equal corners may differ in it
            let hidden = s.colors.is_none()
                && e.brushes.iter().any(|b| b.planes.iter().any(|p| matches!(p.extra, GExtra::Daikatana(..))));
            if e.brushes.len() == 1 && !hidden {
                // corners of one solid that agree in everything are shared
                let n = s.vertices.len();
                for i in 0..n {
                    for j in i + 1..n {
                        ensure!(
                            s.vertices[i] != s.vertices[j]
                                || s.normals[i] != s.normals[j]
                                || s.tangents[i] != s.tangents[j]
                                || s.uvs.as_ref().map_or(false, |u| u[i] != u[j])
                                || s.colors.as_ref().map_or(false, |c| [c[i].r, c[i].g, c[i].b] != [c[j].r, c[j].g, c[j].b]),
                            "entity {} surface {:?}: vertices {} and {} agree in everything but are not shared",
                            ent, s.texture, i, j
                        );
                    }
                }
                ctx.count("surfaces without repeated vertices", 1);
            }
        }
        ctx.count("surfaces", mesh.len() as u64);
    }
    // a surface carries colors only when every face on it has one
    let mut colored = vec![true; mesh.len()];
    for (f, tris) in &faces {
        if !matches!(e.brushes[f.brush].planes[f.plane].extra, GExtra::Daikatana(..)) {
            tris.iter().filter(|t| !t.vague).for_each(|t| colored[t.s] = false);
        }
    }
    let phong = phong_of(e);
    for (f, tris) in &faces {
        let b = &e.brushes[f.brush];
        let rb = b.reff.as_ref().unwrap();
        let gp = &b.planes[f.plane];
        let face = &rb.faces[f.plane];
        let n = rb.planes[f.plane].n;
        let at = format!("entity {} brush {} plane {}", ent, f.brush, f.plane);
        ctx.count("faces", 1);
        ctx.count("triangles", tris.len() as u64);
        ctx.peak("corners of a face", face.verts.len() as u64);
        for t in tris {
            let s = &mesh[t.s];
            let p = [
                sut::v3(s.vertices[t.c[0]]),
                sut::v3(s.vertices[t.c[1]]),
                sut::v3(s.vertices[t.c[2]]),
            ];
            if want.tri {
                let a = geom::dot(tri_area(p[0], p[1], p[2]), n);
                let longest = (0..3).map(|i| geom::dist(p[i], p[(i + 1) % 3])).fold(0.0, f64::max);
                ensure!(
                    a <= 2.0 * longest * rb.tol,
                    "{}: triangle {:?} is wound the wrong way round for its outward normal {:?}",
                    at, p, n
                );
            }
            if t.vague {
                ctx.count("triangles too thin to tell their face", 1);
                continue;
            }
            for i in t.c {
                let x = sut::v3(s.vertices[i]);
                let nm = sut::v3(s.normals[i]);
                if want.normal {
                    ensure!(
                        (geom::len(nm) - 1.0).abs() < 1e-3,
                        "{}: normal {:?} is not of unit length",
                        at, nm
                    );
                    match phong {
                        None => {
                            ensure!(
                                near(nm, n, 1.5e-3),
                                "{}: normal {:?} at {:?}, the plane's is {:?}",
                                at, nm, x, n
                            );
                            ctx.count("flat corners", 1);
                        }
                        Some(angle) => {
                            let v = face
                                .verts
                                .iter()
                                .cloned()
                                .min_by(|a, b| {
                                    geom::dist(rb.verts[*a].pos, x)
                                        .partial_cmp(&geom::dist(rb.verts[*b].pos, x))
                                        .unwrap()
                                })
                                .unwrap();
                            let allowed = expect_phong(b, f.plane, v, angle);
                            if allowed.is_empty() {
                                ctx.count("corners whose normals cancel", 1);
                                continue;
                            }
                            ensure!(
                                allowed.iter().any(|a| near(nm, *a, 4e-3)),
                                "{}: smoothed normal {:?} at {:?} (angle {:?}); expected one of {:?}",
                                at, nm, x, angle, allowed
                            );
                            if allowed.iter().all(|a| near(*a, n, 4e-3)) {
                                ctx.count("smoothed corners left flat by the angle", 1);
                            } else {
                                ctx.count("smoothed corners", 1);
                            }
                        }
                    }
                }
                if want.uv {
                    if let (Some(us), Some(sz)) = (&s.uvs, cfg.tex_size(&gp.tex_key())) {
                        let got = [us[i].x() as f64, us[i].y() as f64];
                        let ex = expect_uv(gp, sz, x);
                        ensure!(
                            ex.iter().any(|(u, tol)| {
                                (got[0] - u[0]).abs() <= tol[0] && (got[1] - u[1]).abs() <= tol[1]
                            }),
                            "{}: texture coordinates {:?} at {:?}, expected {:?} (normal {:?}, {:?}, rotation {}, scale {:?}, size {:?})",
                            at, got, x, ex, n, gp.uv, gp.rot, gp.scale, sz
                        );
                        ctx.count("texture coordinates", 1);
                    }
                    let (tv, h) = &s.tangents[i];
                    let tv = sut::v3(*tv);
                    let ex = expect_tangent(gp);
                    if !ex.is_empty() {
                        ensure!(
                            geom::len(tv) > 1e-6
                                && ex.iter().any(|(d, s)| {
                                    near(geom::norm(tv), geom::norm(*d), 3e-3) && *s == *h as f64
                                }),
                            "{}: tangent {:?} {}, expected one of {:?} (normal {:?}, {:?}, rotation {})",
                            at, tv, h, ex, n, gp.uv, gp.rot
                        );
                        ctx.count("tangents", 1);
                    }
                }
                if want.part {
                    let col = match &gp.extra {
                        GExtra::Daikatana(_, _, _, c) if colored[t.s] => Some(*c),
                        _ => None,
                    };
                    let got = s.colors.as_ref().map(|c| [c[i].r, c[i].g, c[i].b]);
                    ensure!(
                        got == col,
                        "{}: vertex color {:?}, the face's color is {:?}",
                        at, got, col
                    );
                    if flat_face(e) {
                        ensure!(
                            near(nm, n, 1.5e-3),
                            "{}: a corner of this face carries another face's normal {:?} (own {:?})",
                            at, nm, n
                        );
                    }
                    if let (Some(us), Some(sz)) = (&s.uvs, cfg.tex_size(&gp.tex_key())) {
                        let got = [us[i].x() as f64, us[i].y() as f64];
                        ensure!(
                            expect_uv(gp, sz, x).iter().any(|(u, tol)| {
                                (got[0] - u[0]).abs() <= tol[0] && (got[1] - u[1]).abs() <= tol[1]
                            }),
                            "{}: a corner of this face at {:?} carries texture coordinates {:?} that are not its own",
                            at, x, got
                        );
                    }
                    let (tv, h) = &s.tangents[i];
                    let tv = sut::v3(*tv);
                    let ex = expect_tangent(gp);
                    ensure!(
                        ex.is_empty()
                            || geom::len(tv) <= 1e-6
                            || ex.iter().any(|(d, s)| near(geom::norm(tv), geom::norm(*d), 3e-3) && *s == *h as f64),
                        "{}: a corner of this face at {:?} carries the tangent {:?} {} that is not its own ({:?})",
                        at, x, tv, h, ex
                    );
                }
            }
        }
        if want.tri {
            // every corner of the face is a corner of one of its triangles
            for v in &face.verts {
                let c = rb.verts[*v].pos;
                let met = |t: &Tri| t.c.iter().any(|i| geom::dist(sut::v3(mesh[t.s].vertices[*i]), c) <= 4.0 * rb.tol);
                ensure!(
                    tris.iter().any(met) || faces.iter().flat_map(|f| &f.1).any(|t| t.vague && met(t)),
                    "{}: no triangle reaches the corner {:?} of the face",
                    at, c
                );
                ctx.count("corners reached", 1);
            }
            // a random point of the face is covered exactly once
            for _ in 0..3 {
                let k = face.verts.len();
                let mut wts: Vec<f64> = (0..k).map(|_| r.f().max(1e-9).ln() * -1.0).collect();
                let s: f64 = wts.iter().sum();
                wts.iter_mut().for_each(|x| *x /= s);
                let x = (0..k).fold([0.0; 3], |a, i| {
                    geom::add(a, geom::mul(rb.verts[face.verts[i]].pos, wts[i]))
                });
                let slack = 2.0 * rb.tol;
                let tp: Vec<[V; 3]> = tris
                    .iter()
                    .map(|t| {
                        let s = &mesh[t.s];
                        [
                            sut::v3(s.vertices[t.c[0]]),
                            sut::v3(s.vertices[t.c[1]]),
                            sut::v3(s.vertices[t.c[2]]),
                        ]
                    })
                    .collect();
                let sure = tp.iter().filter(|p| inside_tri(n, p, x, slack)).count();
                let maybe = tp.iter().filter(|p| inside_tri(n, p, x, -slack)).count();
                ensure!(
                    sure <= 1,
                    "{}: {} triangles overlap at {:?}",
                    at, sure, x
                );
                ensure!(
                    maybe >= 1,
                    "{}: no triangle covers {:?} of the face",
                    at, x
                );
                if sure == 1 {
                    ctx.count("coverage points", 1);
                }
            }
        }
    }
    if want.tri {
        // each solid that is completely visible must be closed: signed volume
        for (bi, b) in e.brushes.iter().enumerate() {
            let rb = match &b.reff {
                Some(r) if r.simple => r,
                _ => continue,
            };
            let real = real_faces(b).len();
            let mine: Vec<_> = faces.iter().filter(|(f, _)| f.brush == bi).collect();
            if mine.len() != real {
                continue;
            }
            let o = rb.center;
            let mut vol = 0.0;
            for (_, ts) in &mine {
                for t in ts {
                    let s = &mesh[t.s];
                    let p: Vec<V> = t.c.iter().map(|i| geom::sub(sut::v3(s.vertices[*i]), o)).collect();
                    vol -= geom::dot(p[0], geom::cross(p[1], p[2])) / 6.0;
                }
            }
            let surf: f64 = rb.faces.iter().map(|f| f.area).sum();
            let tol = surf * rb.tol + 1e-3 * rb.volume;
            ensure!(
                (vol - rb.volume).abs() <= tol,
                "entity {} brush {}: the triangles enclose a volume of {:.3}, the solid has {:.3}",
                ent, bi, vol, rb.volume
            );
            ctx.count("closed solids", 1);
            ctx.fp(brush_fp(rb));
        }
    }
    Ok(())
}

fn m_of(r: &RefBrush) -> f64 {
    r.verts.iter().map(|v| mag(v.pos)).fold(0.0, f64::max)
}

fn flat_face(e: &GEntity) -> bool {
    phong_of(e).is_none()
}

fn plane_fp(w: &World, tag: &str, ctx: &mut Ctx) {
    for e in &w.map.entities {
        for b in &e.brushes {
            if b.reff.is_none() {
                continue;
            }
            for p in &b.planes {
                ctx.fp(hash_str(&format!(
                    "{} {:?} {:?} {} {:?} {:?}",
                    tag, p.p, p.uv, p.rot, p.scale, e.get("_phong_angle")
                )));
            }
        }
    }
}

// ================================================================= C07

pub fn c07(ctx: &mut Ctx, r: &mut Rng) -> Res {
    if crowd::called(r, 1000) {
        return crowd::judge(ctx, r, crowd::Judge::Tiling);
    }
    let (size, reach) = scale(r);
    let o = WOpts {
        round: size >= 1.0 && r.chance(1, 2500),
        ents: (1, 2),
        brushes: (1, 3),
        unique_tex: r.chance(1, 2),
        reach,
        size,
        ..WOpts::default()
    };
    let w = world::gen(r, &o);
    let tree = run_world(ctx, r, &w, &Style::plain())?;
    let view = view(&w.map, &tree, false)?;
    for ev in &view.ents {
        eval_entity(ctx, r, &w.cfg, &w.map, ev, Want { tri: true, ..Want::default() })?;
    }
    Ok(())
}

// ================================================================= C08

pub fn c08(ctx: &mut Ctx, r: &mut Rng) -> Res {
    if crowd::called(r, 1000) {
        return crowd::judge(ctx, r, crowd::Judge::Normals);
    }
    let o = WOpts {
        ents: (1, 4),
        brushes: (1, 3),
        unique_tex: r.chance(1, 2),
        phong: r.chance(4, 5),
        reach: reach(r),
        ..WOpts::default()
    };
    let w = world::gen(r, &o);
    let tree = run_world(ctx, r, &w, &Style::plain())?;
    let view = view(&w.map, &tree, false)?;
    for ev in &view.ents {
        eval_entity(ctx, r, &w.cfg, &w.map, ev, Want { normal: true, ..Want::default() })?;
    }
    plane_fp(&w, "normal", ctx);
    Ok(())
}

// ================================================================= C09

pub fn c09(ctx: &mut Ctx, r: &mut Rng) -> Res {
    if crowd::called(r, 1000) {
        return crowd::judge(ctx, r, crowd::Judge::Uvs);
    }
    let o = WOpts {
        ents: (1, 2),
        brushes: (1, 3),
        unique_tex: r.chance(2, 3),
        missing_tex: 1,
        phong: r.chance(1, 4),
        reach: reach(r),
        dialect: *r.pick(&[Dialect::Standard, Dialect::Valve, Dialect::Mixed]),
        ..WOpts::default()
    };
    let w = world::gen(r, &o);
    let tree = run_world(ctx, r, &w, &Style::plain())?;
    let view = view(&w.map, &tree, false)?;
    for ev in &view.ents {
        eval_entity(ctx, r, &w.cfg, &w.map, ev, Want { uv: true, ..Want::default() })?;
    }
    for p in w.map.entities.iter().flat_map(|e| e.brushes.iter().flat_map(|b| &b.planes)) {
        if let (GUv::Std(..), Some(t)) = (&p.uv, diagonal(p)) {
            let t: String = t.iter().map(|k| ["z", "y", "x"][*k]).collect::<Vec<_>>().join("=");
            ctx.count(&format!("exactly diagonal faces, {}", t), 1);
        }
    }
    plane_fp(&w, "uv", ctx);
    Ok(())
}

// ================================================================= C10

/// Repeats some planes of a brush, sometimes with other texture alignment.
fn repeat_planes(r: &mut Rng, b: &mut GBrush) {
    let n = b.planes.len();
    for _ in 0..r.range(1, 2) {
        let k = r.below(n);
        let mut p = b.planes[k].clone();
        let nrm = p.plane().n;
        match r.below(3) {
            0 => (),
            1 => {
                let (uv, rot, sc, _) = gen_surface(r, nrm, Dialect::Mixed, 0);
                p.uv = uv;
                p.rot = rot;
                p.scale = sc;
            }
            _ => p.texture = r.pick(&b.planes).texture.clone(),
        }
        let at = r.below(b.planes.len() + 1);
        b.planes.insert(at, p);
    }
    let planes: Vec<geom::Plane> = b.planes.iter().map(|p| p.plane()).collect();
    b.reff = geom::analyse(&planes);
}

/// One texture projection for the whole brush, with smooth normals, so that
/// faces share corners - except that some faces have an axis and its scale
/// turned round (the same coordinates, another tangent) or another color.
fn coherent(r: &mut Rng, e: &mut GEntity) {
    e.set("_phong", "1");
    let colored = r.chance(1, 4);
    let flips = r.chance(1, 2);
    for b in e.brushes.iter_mut() {
        let n = rand_dir(r);
        let dialect = if r.chance(3, 4) { Dialect::Valve } else { Dialect::Standard };
        let first = if b.planes.is_empty() { continue } else { b.planes[r.below(b.planes.len())].clone() };
        let (mut uv, mut rot, mut scale, _) = gen_surface(r, n, dialect, 0);
        if r.chance(1, 2) {
            rot = 0.0;
            scale = *r.pick(&[[1.0, 1.0], [0.5, 0.5], [-1.0, 2.0]]);
        }
        if let (GUv::Valve(u, _, v, _), true) = (&mut uv, r.chance(1, 3)) {
            let ax = [[1.0f32, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
            let k = r.below(3);
            *u = ax[k];
            *v = ax[(k + 1 + r.below(2)) % 3];
        }
        let cols = [[0.25, 0.5, 1.0], [0.25, 0.5, if r.chance(1, 2) { 1.0 } else { 0.75 }]];
        for p in b.planes.iter_mut() {
            p.texture = first.texture.clone();
            p.uv = uv.clone();
            p.rot = rot;
            p.scale = scale;
            if flips && r.chance(1, 3) {
                let k = r.below(2);
                match &mut p.uv {
                    GUv::Valve(_, _, v, _) if k == 1 => *v = v.map(|x| -x),
                    GUv::Valve(u, _, _, _) => *u = u.map(|x| -x),
                    GUv::Std(..) => (),
                }
                p.scale[k] = -p.scale[k];
            }
            p.extra = if colored { GExtra::Daikatana(0, 0, 0.0, *r.pick(&cols)) } else { GExtra::None };
        }
    }
}

pub fn c10(ctx: &mut Ctx, r: &mut Rng) -> Res {
    if crowd::called(r, 1000) {
        return crowd::judge(ctx, r, crowd::Judge::Surfaces);
    }
    let (size, reach) = scale(r);
    let o = WOpts {
        round: size >= 1.0 && r.chance(1, 2500),
        ents: (1, 3),
        brushes: (0, 5),
        missing_tex: *r.pick(&[0, 4, 10]),
        blacklist: r.chance(2, 3),
        phong: r.chance(1, 4),
        reach: reach.min(8192.0),
        size: size.min(4.0),
        mixed_defs: r.chance(1, 3),
        vis: None,
        ..WOpts::default()
    };
    let mut w = world::gen(r, &o);
    let mut repeated = false;
    if o.round || r.chance(1, 4) {
        for e in w.map.entities.iter_mut().filter(|e| !e.brushes.is_empty()) {
            coherent(r, e);
        }
        ctx.count("maps of smooth solids with one projection", 1);
    }
    if r.chance(1, 3) {
        for e in w.map.entities.iter_mut() {
            if phong_of(e).is_some() {
                continue;
            }
            for b in e.brushes.iter_mut() {
                if r.chance(1, 2) {
                    let keep = b.clone();
                    repeat_planes(r, b);
                    if b.reff.is_none() {
                        *b = keep;
                    } else {
                        repeated = true;
                    }
                }
            }
        }
    }
    // whole brushes of blacklisted textures
    if o.blacklist && !w.cfg.bl_brush.is_empty() {
        for e in w.map.entities.iter_mut() {
            for b in e.brushes.iter_mut() {
                if r.chance(1, 3) {
                    for p in b.planes.iter_mut() {
                        p.texture = r.pick(&w.cfg.bl_brush).clone();
                        if r.chance(1, 4) {
                            p.texture = p.texture.to_uppercase();
                        }
                    }
                }
            }
        }
    }
    let tree = run_world(ctx, r, &w, &Style::plain())?;
    let view = view(&w.map, &tree, false)?;
    for ev in &view.ents {
        eval_entity(ctx, r, &w.cfg, &w.map, ev, Want { part: true, ..Want::default() })?;
        let e = &w.map.entities[ev.ent];
        let vis = visible_faces(&w.cfg, e);
        let all: usize = e.brushes.iter().map(|b| real_faces(b).len()).sum();
        ctx.count("faces hidden by the blacklist", (all - vis.len()) as u64);
        let mut keys: Vec<_> = vis.iter().map(|v| v.1.clone()).collect();
        keys.sort();
        keys.dedup();
        if let Some((_, mesh)) = ev.vis {
            let mut shared = 0;
            for s in mesh {
                let mut seen: BTreeMap<usize, usize> = BTreeMap::new();
                for (t, c) in s.indices.iter().enumerate() {
                    let n = sut::v3(s.normals[*c]);
                    let t = t / 3 * 3;
                    let p = [0, 1, 2].map(|k| sut::v3(s.vertices[s.indices[t + k]]));
                    let own = geom::norm(tri_area(p[0], p[1], p[2]));
                    *seen.entry(*c).or_insert(0) += !near(n, own, 1e-3) as usize;
                }
                shared += seen.values().filter(|k| **k > 1).count();
            }
            ctx.count("smooth corners of several triangles", shared as u64);
        }
        if keys.len() > 1 {
            ctx.fp(hash_str(&format!("{:?} {} {}", keys, vis.len(), all - vis.len())));
        }
    }
    if repeated {
        ctx.count("maps with repeated planes", 1);
    }
    Ok(())
}

// ================================================================= C11

pub fn eval_collision(
    ctx: &mut Ctx,
    ent: usize,
    brushes: &[&GBrush],
    kind: Col,
    col: Option<(&SceneTreeNode, &CollisionGeometry)>,
    pivot: Option<V>,
) -> Res {
    let solids: Vec<&GBrush> = brushes.iter().cloned().filter(|b| b.reff.is_some()).collect();
    match (kind, col.map(|c| c.1)) {
        (Col::None, None) => Ok(()),
        (Col::None, Some(_)) => Err(format!("entity {}: has collision although its class has none", ent).into()),
        (Col::Convex, got) => {
            let empty = vec![];
            let real = match got {
                Some(CollisionGeometry::Convex(s)) => s,
                None => &empty,
                Some(_) => return Err(format!("entity {}: collision is not convex shapes", ent).into()),
            };
            ensure!(
                real.len() == solids.len(),
                "entity {}: {} solid brushes, {} convex shapes",
                ent, solids.len(), real.len()
            );
            ensure!(
                got.is_some() == !solids.is_empty(),
                "entity {}: {} solid brushes, collision {:?}",
                ent, solids.len(), got
            );
            for (b, s) in solids.iter().zip(real) {
                let r = b.reff.as_ref().unwrap();
                let tol = r.tol;
                let pts = v3s(&s.points);
                let want: Vec<V> = r.verts.iter().map(|v| v.pos).collect();
                same_set(&format!("entity {} convex shape", ent), &pts, &want, tol)?;
                for i in 0..pts.len() {
                    ensure!(
                        pts[i + 1..].iter().all(|x| *x != pts[i]),
                        "entity {}: convex shape repeats the point {:?}",
                        ent, pts[i]
                    );
                }
                let c = sut::v3(s.center);
                if r.simple {
                    ensure!(
                        geom::dist(c, r.center) <= 2.0 * tol,
                        "entity {}: convex shape centered on {:?}, the solid's center is {:?}",
                        ent, c, r.center
                    );
                }
                ensure!(
                    r.planes.iter().all(|p| p.side(c) < tol),
                    "entity {}: the center {:?} of a convex shape is outside its solid",
                    ent, c
                );
                ctx.count("convex shapes", 1);
                ctx.fp(mix(1, brush_fp(r)));
            }
            Ok(())
        }
        (Col::Concave, got) => {
            let shapes = match got {
                Some(CollisionGeometry::Concave(s)) => s.clone(),
                None => vec![],
                Some(_) => return Err(format!("entity {}: collision is not a concave shape", ent).into()),
            };
            if solids.is_empty() {
                ensure!(
                    got.is_none(),
                    "entity {}: concave collision out of nothing",
                    ent
                );
                return Ok(());
            }
            ensure!(
                shapes.len() == 1,
                "entity {}: {} concave shapes, expected one",
                ent, shapes.len()
            );
            let s = &shapes[0];
            ensure!(s.indices.len() % 3 == 0, "entity {}: partial triangle in collision", ent);
            ensure!(
                s.indices.iter().all(|i| *i < s.vertices.len()),
                "entity {}: collision index out of range",
                ent
            );
            if let Some(p) = pivot {
                let c = sut::v3(s.center);
                ensure!(
                    geom::dist(c, p) <= 2.0 * pos_tol(mag(p)),
                    "entity {}: concave shape centered on {:?}, the pivot is {:?}",
                    ent, c, p
                );
            }
            let pos = v3s(&s.vertices);
            if brushes.len() == 1 {
                for i in 0..pos.len() {
                    ensure!(
                        pos[i + 1..].iter().all(|x| *x != pos[i]),
                        "entity {}: the concave shape of one solid repeats the vertex {:?}",
                        ent, pos[i]
                    );
                }
            }
            let mut left: Vec<(usize, usize, f64, f64)> = vec![];
            let mut got: Vec<Vec<[V; 3]>> = vec![];
            for (bi, b) in solids.iter().enumerate() {
                let r = b.reff.as_ref().unwrap();
                for p in real_faces(b) {
                    left.push((bi, p, r.faces[p].area, r.faces[p].area));
                    got.push(vec![]);
                }
            }
            for t in s.indices.chunks(3) {
                let p = [pos[t[0]], pos[t[1]], pos[t[2]]];
                let av = tri_area(p[0], p[1], p[2]);
                let area = geom::len(av);
                let longest = (0..3).map(|i| geom::dist(p[i], p[(i + 1) % 3])).fold(0.0, f64::max);
                let mut best: Option<(f64, usize)> = None;
                for (k, l) in left.iter().enumerate() {
                    let r = solids[l.0].reff.as_ref().unwrap();
                    let tol = 2.0 * r.tol;
                    if p.iter().all(|x| geom::polygon_excess(r, &r.faces[l.1], *x) <= tol) {
                        let dir = if area > longest * r.tol {
                            geom::dot(av, r.planes[l.1].n) / area + 1.0
                        } else {
                            0.0
                        };
                        let score = dir
                            + if l.2 < area * 0.5 - room(r, l.3) { 10.0 } else { 0.0 }
                            + if area > longest * r.tol && got[k].contains(&p) { 5.0 } else { 0.0 };
                        if best.map_or(true, |(b, _)| score < b) {
                            best = Some((score, k));
                        }
                    }
                }
                match best {
                    None => {
                        return Err(format!("entity {}: collision triangle {:?} lies on no face", ent, p).into());
                    }
                    Some((_, k)) => {
                        let r = solids[left[k].0].reff.as_ref().unwrap();
                        let n = r.planes[left[k].1].n;
                        ensure!(
                            geom::dot(av, n) <= 2.0 * longest * r.tol,
                            "entity {}: collision triangle {:?} faces inwards",
                            ent, p
                        );
                        left[k].2 -= area;
                        got[k].push(p);
                        ctx.count("concave triangles", 1);
                    }
                }
            }
            for (b, p, l, a) in &left {
                let r = solids[*b].reff.as_ref().unwrap();
                let tol = room(r, *a);
                ensure!(
                    l.abs() <= tol,
                    "entity {}: solid {} plane {} has area {:.3}, its collision triangles cover {:.3}",
                    ent, b, p, a, a - l
                );
            }
            for b in &solids {
                ctx.fp(mix(2, brush_fp(b.reff.as_ref().unwrap())));
            }
            ctx.count("concave shapes", 1);
            Ok(())
        }
    }
}

pub fn c11(ctx: &mut Ctx, r: &mut Rng) -> Res {
    if crowd::called(r, 1000) {
        return crowd::judge(ctx, r, crowd::Judge::Collision);
    }
    let (size, reach) = scale(r);
    let o = WOpts {
        round: size >= 1.0 && r.chance(1, 2500),
        ents: (1, 4),
        brushes: (0, 4),
        missing_tex: *r.pick(&[0, 8]),
        blacklist: r.chance(1, 2),
        phong: r.chance(1, 4),
        origins: r.chance(1, 2),
        groups: r.chance(1, 4),
        reach,
        size,
        vis: None,
        col: None,
        mixed_defs: true,
        oddities: r.chance(1, 3),
        redundant: r.chance(1, 3),
        ..WOpts::default()
    };
    let w = world::gen(r, &o);
    let tree = run_world(ctx, r, &w, &Style::plain())?;
    let view = view(&w.map, &tree, false)?;
    for ev in &view.ents {
        let e = &w.map.entities[ev.ent];
        let brushes: Vec<&GBrush> = e.brushes.iter().collect();
        eval_collision(ctx, ev.ent, &brushes, collision_kind(&w.cfg, e), ev.col, pivot(e))?;
    }
    Ok(())
}

// ================================================================= C12

const LOOKALIKES: [&str; 12] = [
    "*lava1", "*water1", "*water", "*water01", "*water0_deep", "*water00", "water0", "#water0", "a*water0", "e1/*water0", "*slime0b", "*slim",
];

pub fn c12(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let mut o = WOpts {
        ents: (1, 3),
        brushes: (0, 3),
        missing_tex: *r.pick(&[0, 4]),
        origins: true,
        reach: 2000.0,
        vis: None,
        col: None,
        ..WOpts::default()
    };
    if r.chance(1, 4) {
        o.groups = true;
    }
    let mut w = world::gen(r, &o);
    if r.chance(1, 10) {
        // layers have their own definitions, worldspawn needs none
        w.cfg.defs.retain(|d| d.classname != "worldspawn");
    }
    let liquids = ["*water0", "*slime0"];
    let mut layers = vec![];
    // texture info: sometimes missing, and then there is no layer to split
    let known: Vec<bool> = liquids.iter().map(|_| !r.chance(1, 8)).collect();
    for (k, t) in liquids.iter().enumerate() {
        if known[k] {
            w.cfg.tex.push((t.to_string(), (64, 32)));
        }
        layers.push(sut::Layer {
            name: format!("Layer{}", k),
            texture: t.to_string(),
            et: world::rand_et(r),
            comp: if r.chance(1, 2) { Some(format!("l{}.gd", k)) } else { None },
            vis: if r.chance(3, 4) { Vis::Mesh } else { Vis::None },
            col: *r.pick(&[Col::None, Col::Convex, Col::Concave]),
        });
    }
    if r.chance(1, 2) {
        layers.push(sut::Layer {
            name: "Lava".into(),
            texture: "*lava1".into(),
            et: world::rand_et(r),
            comp: None,
            vis: Vis::Mesh,
            col: Col::Concave,
        });
    }
    // definitions for textures that never form layers, other spellings included
    let mut taken = vec!["*lava1"];
    for i in 0..r.below(4) {
        let t = if r.chance(1, 4) {
            *r.pick(&["*WATER0", "*Water0", "*SLIME0", "*slime0 ", "*water", ""])
        } else if r.chance(1, 2) {
            *r.pick(&LOOKALIKES)
        } else {
            *r.pick(&vocab::TEXTURES)
        };
        if taken.contains(&t) {
            continue;
        }
        taken.push(t);
        layers.push(sut::Layer {
            name: format!("Never{}", i),
            texture: t.into(),
            et: world::rand_et(r),
            comp: None,
            vis: Vis::Mesh,
            col: Col::Convex,
        });
    }
    r.shuffle(&mut layers);
    w.cfg.layers = layers;
    for t in LOOKALIKES.iter().chain(vocab::TEXTURES.iter()) {
        let k = t.to_lowercase();
        if w.cfg.tex_size(&k).is_none() {
            w.cfg.tex.push((k, (64, 64)));
        }
    }
    let ws = w.map.entities.iter().position(|e| e.get("classname") == Some("worldspawn")).unwrap();
    let mut moved: Vec<(usize, usize)> = vec![]; // (liquid, brush index in worldspawn)
    let crowd = crate::crowd::called(r, 1500);
    let number = if crowd { r.range(200, 700) } else { r.range(0, 6) };
    if crowd {
        ctx.count("layers of hundreds of brushes", 1);
    }
    let mostly = r.below(2);
    for n in 0..number {
        let c = if crowd {
            // beyond all cells
            [4000.0 + 440.0 * (n % 9) as f64, 440.0 * (n / 9 % 9) as f64, 440.0 * (n / 81) as f64]
        } else {
            match w.next_cell() {
                Some(c) => c,
                None => break,
            }
        };
        let mut tex = TexGen { names: vec!["brick1".into()], unique: false, counter: 0 };
        let shape = if crowd { Some(Shape::Box) } else { None };
        let mut b = gen_brush(r, c, &BrushCfg { max_tries: 200, shape, ..BrushCfg::plain() }, &mut tex);
        let k = if crowd && !r.chance(1, 20) { mostly } else { r.below(2) };
        let np = b.planes.len();
        let style = if crowd { r.range(3, 40) as usize % 40 } else { r.below(8) };
        // names that only resemble a liquid's
        let other = if r.chance(1, 2) { *r.pick(&LOOKALIKES) } else { *r.pick(&vocab::TEXTURES) };
        for (i, p) in b.planes.iter_mut().enumerate() {
            p.texture = match style {
                0 if i == 0 => "brick1".into(),
                1 if i == np - 1 => liquids[1 - k].to_string(),
                2 => other.to_string(),
                _ => {
                    if r.chance(1, 6) {
                        liquids[k].to_uppercase()
                    } else {
                        liquids[k].to_string()
                    }
                }
            };
        }
        let to = if r.chance(1, if crowd { 50 } else { 5 }) { r.below(w.map.entities.len()) } else { ws };
        let at = r.below(w.map.entities[to].brushes.len() + 1);
        w.map.entities[to].brushes.insert(at, b);
    }
    if w.cfg.tex_size("brick1").is_none() && r.chance(1, 2) {
        w.cfg.tex.push(("brick1".into(), (64, 64)));
    }
    for (bi, b) in w.map.entities[ws].brushes.iter().enumerate() {
        for (k, t) in liquids.iter().enumerate() {
            if known[k] && b.planes.iter().all(|p| p.tex_key() == *t) {
                moved.push((k, bi));
            }
        }
    }
    let tree = run_world(ctx, r, &w, &Style::plain())?;
    let full = w.map.entities[ws].clone();
    // what must remain in worldspawn
    let mut m2 = w.map.clone();
    let mut i = 0;
    m2.entities[ws].brushes.retain(|_| {
        i += 1;
        !moved.iter().any(|(_, b)| *b == i - 1)
    });
    let view = view(&m2, &tree, true)?;
    // worldspawn (and everything else) keeps exactly its own brushes
    for ev in &view.ents {
        let e = &m2.entities[ev.ent];
        eval_entity(ctx, r, &w.cfg, &m2, ev, Want { part: true, uv: true, ..Want::default() })?;
        let brushes: Vec<&GBrush> = e.brushes.iter().collect();
        let pv = pivot(if ev.ent == ws { &full } else { e });
        eval_collision(ctx, ev.ent, &brushes, collision_kind(&w.cfg, e), ev.col, pv)?;
    }
    // the layers
    let mut names = vec![];
    for n in &view.layers {
        let (a, ch, geo) = actor_parts(n).ok_or_else(|| "a layer is not an actor".to_string())?;
        ensure!(ch.is_empty(), "layer {} has child actors", a.name);
        let l = w
            .cfg
            .layers
            .iter()
            .find(|l| l.name == a.name)
            .ok_or_else(|| format!("unexpected top-level node {:?} after worldspawn", a.name))?;
        ensure!(!names.contains(&a.name), "layer {} appears twice", a.name);
        names.push(a.name.clone());
        ensure!(
            sut::et_back(&a.entity_type) == l.et && a.component_class == l.comp,
            "layer {}: built as {:?} with component {:?}, defined as {:?} with {:?}",
            a.name, a.entity_type, a.component_class, l.et, l.comp
        );
        ensure!(
            mag(sut::v3(n.origin)) == 0.0 && geo.iter().all(|g| mag(sut::v3(g.origin)) == 0.0),
            "layer {} is displaced from the world origin",
            a.name
        );
        let k = match liquids.iter().position(|t| *t == l.texture) {
            Some(k) => k,
            None => return Err(format!("layer {} for a texture that is never split out", a.name).into()),
        };
        let mut le = GEntity::default();
        le.set("classname", "layer");
        for (k, v) in &full.props {
            if k.starts_with("_phong") {
                le.set(k, v);
            }
        }
        le.brushes = moved.iter().filter(|m| m.0 == k).map(|m| full.brushes[m.1].clone()).collect();
        let mut lc = w.cfg.clone();
        lc.bl_brush.clear();
        lc.bl_plane.clear();
        lc.defs.push(sut::Def {
            classname: "layer".into(),
            brush: Some((l.vis, l.col)),
            et: l.et.clone(),
            comp: None,
            pat: sut::Pat::Properties,
        });
        let (mut vis, mut col) = (None, None);
        for g in geo {
            match &g.data {
                SceneTreeType::VisualGeometry(VisualGeometry::Mesh(m)) => {
                    ensure!(vis.is_none(), "layer {}: two visual geometry nodes", a.name);
                    vis = Some((g, &m.surfaces))
                }
                SceneTreeType::CollisionGeometry(CollisionGeometry::None) => (),
                SceneTreeType::CollisionGeometry(c) => {
                    ensure!(col.is_none(), "layer {}: two collision geometry nodes", a.name);
                    col = Some((g, c))
                }
                _ => (),
            }
        }
        let lm = GMap { entities: vec![le] };
        let ev = EView {
            ent: 0,
            actor: a,
            node: n,
            world: [0.0; 3],
            parent: None,
            vis,
            col,
        };
        eval_entity(ctx, r, &lc, &lm, &ev, Want { part: true, uv: true, ..Want::default() })?;
        let mine: Vec<&GBrush> = lm.entities[0].brushes.iter().collect();
        eval_collision(ctx, 0, &mine, l.col, col, None)?;
        ctx.count("layer nodes", 1);
    }
    // no layer with content may be missing
    for (k, t) in liquids.iter().enumerate() {
        let l = w.cfg.layers.iter().find(|l| l.texture == *t).unwrap();
        let mine = moved.iter().filter(|m| m.0 == k).count();
        let has = mine > 0 && (l.vis == Vis::Mesh || l.col != Col::None);
        ensure!(
            has || !names.contains(&l.name),
            "the layer {} has nothing to show but is there",
            l.name
        );
        ensure!(
            !has || names.contains(&l.name),
            "worldspawn has {} brushes of {} but the layer {} is missing",
            mine, t, l.name
        );
        if has {
            ctx.fp(fpr(
                "layer",
                &[
                    k as i64,
                    mine as i64,
                    moved.len() as i64,
                    l.col as i64,
                    l.vis as i64,
                    full.brushes.len() as i64,
                    w.map.entities.len() as i64,
                    ws as i64,
                ],
            ));
            ctx.count("brushes moved to a layer", mine as u64);
        }
    }
    Ok(())
}
