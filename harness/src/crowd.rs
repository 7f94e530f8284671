//! Crowds: one map of thousands of cubes, judged cube by cube. Counters and
//! indices that are too narrow, limits and batches only show at this scale.
use crate::ensure;
use crate::fw::*;
use crate::geom::{self, V};
use crate::rng::*;
use crate::scene::*;
use crate::sut::{self, Cfg, Col, Def, Et, Forge, Pat, Vis};
use quarchitect::game_data::forge::PropertyData;
use quarchitect::scene_tree::*;
use std::collections::BTreeMap;

const PITCH: i64 = 32;

#[derive(Clone, Copy, PartialEq)]
pub enum Judge {
    /// triangles of the visible faces
    Tiling,
    /// surfaces and their vertices
    Surfaces,
    Collision,
    /// the normals of the visible faces
    Normals,
    /// the texture coordinates of the visible faces
    Uvs,
}

pub struct Crowd {
    pub text: String,
    pub cfg: Cfg,
    cubes: Vec<Cube>,
    col: Col,
    members: Vec<Vec<usize>>,
}

struct Cube {
    cell: [i64; 3],
    half: f64,
    tex: usize,
    ent: usize,
}

fn center(c: &Cube) -> V {
    [0, 1, 2].map(|k| (c.cell[k] * PITCH) as f64)
}

fn cube_lines(c: &Cube, tex: &str, out: &mut String) {
    let o = center(c);
    let h = c.half;
    for k in 0..3 {
        for s in [-1.0, 1.0] {
            let mut p = [o; 3];
            for (i, q) in p.iter_mut().enumerate() {
                q[k] += s * h;
                // three points, clockwise seen from outside
                let (a, b) = ((k + 1) % 3, (k + 2) % 3);
                let (u, v) = [(0.0, 0.0), (0.0, 1.0), (1.0, 0.0)][i];
                let (u, v) = if s > 0.0 { (u, v) } else { (v, u) };
                q[a] += u * 8.0;
                q[b] += v * 8.0;
            }
            for q in p {
                *out += &format!("( {} {} {} ) ", q[0], q[1], q[2]);
            }
            *out += &format!("{} 0 0 0 1 1\n", tex);
        }
    }
}

/// Triangles by cube: number, area, volume, and whether all their corners are the cube's.
fn by_cube(tris: &[[V; 3]], index: &BTreeMap<[i64; 3], usize>, cubes: &[Cube]) -> Result<BTreeMap<usize, (usize, f64, f64)>, String> {
    let mut m: BTreeMap<usize, (usize, f64, f64)> = BTreeMap::new();
    for t in tris {
        let mid = geom::mul(geom::add(geom::add(t[0], t[1]), t[2]), 1.0 / 3.0);
        let cell = mid.map(|x| (x / PITCH as f64).round() as i64);
        let c = *index.get(&cell).ok_or_else(|| format!("a triangle at {:?}, where no cube is", mid))?;
        let o = center(&cubes[c]);
        for p in t {
            for k in 0..3 {
                if ((p[k] - o[k]).abs() - cubes[c].half).abs() > 0.01 {
                    return Err(format!("a triangle of the cube at {:?} has a corner at {:?}", o, p));
                }
            }
        }
        let e = m.entry(c).or_insert((0, 0.0, 0.0));
        let n = geom::cross(geom::sub(t[1], t[0]), geom::sub(t[2], t[0]));
        e.0 += 1;
        e.1 += geom::len(n) / 2.0;
        // clockwise seen from outside
        e.2 -= geom::dot(geom::sub(t[0], o), n) / 6.0;
    }
    Ok(m)
}

fn whole(m: &BTreeMap<usize, (usize, f64, f64)>, cubes: &[Cube], ids: &[usize]) -> Result<(), String> {
    for c in ids {
        let s = 2.0 * cubes[*c].half;
        let (n, area, vol) = m.get(c).copied().unwrap_or((0, 0.0, 0.0));
        if n != 12 || (area - 6.0 * s * s).abs() > 0.1 || (vol - s * s * s).abs() > 0.5 {
            return Err(format!(
                "the cube at {:?} of side {} has {} triangles, area {} and volume {}",
                center(&cubes[*c]), s, n, area, vol
            ));
        }
    }
    if m.len() != ids.len() {
        return Err(format!("triangles for {} cubes instead of {}", m.len(), ids.len()));
    }
    Ok(())
}

fn tris(vs: &[quarchitect::Vector3], ix: &[usize]) -> Result<Vec<[V; 3]>, String> {
    if ix.len() % 3 != 0 {
        return Err(format!("{} indices", ix.len()));
    }
    ix.chunks(3)
        .map(|c| {
            let mut t = [[0.0; 3]; 3];
            for k in 0..3 {
                t[k] = sut::v3(*vs.get(c[k]).ok_or_else(|| format!("index {} of {} vertices", c[k], vs.len()))?);
            }
            Ok(t)
        })
        .collect()
}

pub fn make(r: &mut Rng, convex: bool) -> Crowd {
    let n = *r.pick(&[400usize, 1500, 2800, 3500, 6000]);
    let nents = r.range(1, 3) as usize;
    let ntex = *r.pick(&[1usize, 1, 2, 7, 300]);
    let col = if convex || r.chance(1, 2) { Col::Convex } else { Col::Concave };
    let side = ((n as f64).cbrt() as i64) + 1;
    let at = [0, 1, 2].map(|_| r.range(-40, 40));
    let half = *r.pick(&[4.0, 8.0, 12.0]);
    let skew = r.chance(1, 3);
    let cubes: Vec<Cube> = (0..n)
        .map(|i| {
            let i = i as i64;
            Cube {
                cell: [at[0] + i % side, at[1] + (i / side) % side, at[2] + i / (side * side)],
                half: if skew { r.range(2, 12) as f64 } else { half },
                tex: r.below(ntex),
                // almost all in one entity
                ent: if r.chance(15, 16) { 0 } else { r.below(nents) },
            }
        })
        .collect();
    let mut text = String::new();
    let mut cfg = Cfg::default();
    let members: Vec<Vec<usize>> = (0..nents).map(|e| (0..n).filter(|c| cubes[*c].ent == e).collect()).collect();
    for e in 0..nents {
        let class = if e == 0 { "worldspawn".to_string() } else { "crowd".to_string() };
        text += &format!("{{\n\"classname\" \"{}\"\n", class);
        for c in &members[e] {
            text += "{\n";
            cube_lines(&cubes[*c], &format!("t{}", cubes[*c].tex), &mut text);
            text += "}\n";
        }
        text += "}\n";
    }
    for class in ["worldspawn", "crowd"] {
        cfg.forge.push(Forge { class_name: class.into(), props: vec![("uid".into(), PropertyData::Integer(-1))] });
        cfg.defs.push(Def { classname: class.into(), brush: Some((Vis::Mesh, col)), et: Et::Placeholder, comp: None, pat: Pat::Properties });
    }
    for t in 0..ntex {
        cfg.tex.push((format!("t{}", t), (64, 64)));
    }
    Crowd { text, cfg, cubes, col, members }
}

/// The same crowd built again and again: with permuted tables, by fewer and more threads.
pub fn deterministic(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let c = make(r, false);
    ctx.inputs.clear();
    ctx.input("input.map", c.text.as_bytes());
    ctx.sample(|| format!("{} cubes, built again by pools of other sizes", c.cubes.len()));
    let want = sut::dump_tree(&sut::run_ok(&c.text, &c.cfg)?);
    for threads in [1, 2, 7] {
        let mut cfg = c.cfg.clone();
        r.shuffle(&mut cfg.tex);
        r.shuffle(&mut cfg.defs);
        r.shuffle(&mut cfg.forge);
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().expect("harness: pool");
        let got = sut::dump_tree(&pool.install(|| sut::run_ok(&c.text, &cfg))?);
        ensure!(
            got == want,
            "building a map of {} brushes again by {} threads gives a different tree: {}",
            c.cubes.len(), threads, crate::checks_ent::first_diff(&want, &got)
        );
        ctx.count("large maps built again by pools of other sizes", 1);
    }
    ctx.fp(hash_str(&want));
    Ok(())
}

pub fn judge(ctx: &mut Ctx, r: &mut Rng, what: Judge) -> Res {
    let Crowd { text, cfg, cubes, col, members } = make(r, false);
    let (n, nents, ntex) = (cubes.len(), members.len(), cfg.tex.len());
    let index: BTreeMap<[i64; 3], usize> = cubes.iter().enumerate().map(|(i, c)| (c.cell, i)).collect();
    ctx.inputs.clear();
    ctx.input("input.map", text.as_bytes());
    ctx.sample(|| format!("{} cubes in {} entities with {} textures", n, nents, ntex));
    let tree = sut::run_ok(&text, &cfg)?;
    ensure!(tree.len() == nents, "{} nodes for {} entities", tree.len(), nents);
    ctx.count("maps of hundreds or thousands of brushes", 1);
    for (e, node) in tree.iter().enumerate() {
        let (_, _, children) =
            actor_parts(node).ok_or_else(|| Fail::Violation(format!("node {} is no actor", e)))?;
        let mut vis = None;
        let mut shapes = None;
        for c in children.iter() {
            match &c.data {
                SceneTreeType::VisualGeometry(VisualGeometry::Mesh(m)) => vis = Some(m),
                SceneTreeType::CollisionGeometry(g) => shapes = Some(g),
                _ => (),
            }
        }
        let ids = &members[e];
        if ids.is_empty() {
            ensure!(vis.is_none() && shapes.is_none(), "entity {} has geometry but no brushes", e);
            continue;
        }
        let mid = {
            let mut s = [0.0; 3];
            for c in ids {
                s = geom::add(s, center(&cubes[*c]));
            }
            geom::mul(s, 1.0 / ids.len() as f64)
        };
        match what {
            Judge::Tiling | Judge::Surfaces | Judge::Normals | Judge::Uvs => {
                let m = vis.ok_or_else(|| Fail::Violation(format!("entity {} has no visual geometry", e)))?;
                let mut left: BTreeMap<String, Vec<usize>> = BTreeMap::new();
                for c in ids {
                    left.entry(format!("t{}", cubes[*c].tex)).or_default().push(*c);
                }
                let mut at = 0;
                for s in &m.surfaces {
                    at += 1;
                    let name = s.texture.clone().unwrap_or_default();
                    let want = left
                        .remove(&name)
                        .ok_or_else(|| Fail::Violation(format!("entity {}: surface {} with the texture {:?}", e, at, s.texture)))?;
                    if what == Judge::Tiling {
                        whole(&by_cube(&tris(&s.vertices, &s.indices)?, &index, &cubes)?, &cubes, &want)
                            .map_err(|x| format!("entity {}, surface {:?}: {}", e, name, x))?;
                        ctx.count("cubes of crowds", want.len() as u64);
                    } else if what != Judge::Surfaces {
                        let pos: Vec<V> = s.vertices.iter().map(|v| sut::v3(*v)).collect();
                        let uvs = s.uvs.as_ref();
                        ensure!(
                            uvs.map_or(false, |u| u.len() == pos.len()) && s.normals.len() == pos.len() && s.tangents.len() == pos.len(),
                            "entity {}, surface {:?}: {} positions, {} normals, {:?} texture coordinates",
                            e, name, pos.len(), s.normals.len(), uvs.map(|u| u.len())
                        );
                        for t in tris(&s.vertices, &s.indices)?.iter().zip(s.indices.chunks(3)) {
                            let n = geom::norm(geom::cross(geom::sub(t.0[2], t.0[0]), geom::sub(t.0[1], t.0[0])));
                            for i in t.1 {
                                if what == Judge::Normals {
                                    let got = sut::v3(s.normals[*i]);
                                    ensure!(
                                        near(got, n, 1e-3),
                                        "entity {}, surface {:?}: normal {:?} at {:?} on a face that looks along {:?}",
                                        e, name, got, pos[*i], n
                                    );
                                } else {
                                    let x = pos[*i];
                                    let ax = (0..3).max_by(|a, b| n[*a].abs().partial_cmp(&n[*b].abs()).unwrap()).unwrap();
                                    let (a, b) = match ax {
                                        2 => (x[0], -x[1]),
                                        1 => (x[0], -x[2]),
                                        _ => (x[1], -x[2]),
                                    };
                                    let got = [uvs.unwrap()[*i].x() as f64, uvs.unwrap()[*i].y() as f64];
                                    ensure!(
                                        (got[0] - a / 64.0).abs() < 1e-3 && (got[1] - b / 64.0).abs() < 1e-3,
                                        "entity {}, surface {:?}: texture coordinates {:?} at {:?} on a face that looks along {:?}",
                                        e, name, got, x, n
                                    );
                                    let (t, h) = &s.tangents[*i];
                                    let t = sut::v3(*t);
                                    let want = if ax == 0 { [0.0, 1.0, 0.0] } else { [1.0, 0.0, 0.0] };
                                    ensure!(
                                        near(geom::norm(t).map(f64::abs), want, 1e-3) && h.abs() == 1.0,
                                        "entity {}, surface {:?}: tangent {:?} at {:?} on a face that looks along {:?}",
                                        e, name, t, x, n
                                    );
                                }
                            }
                        }
                        ctx.count("cubes of crowds", want.len() as u64);
                    } else {
                        ensure!(
                            s.vertices.len() == 24 * want.len() && s.normals.len() == s.vertices.len(),
                            "entity {}, surface {:?}: {} vertices for {} cubes",
                            e, name, s.vertices.len(), want.len()
                        );
                        surface_shape(e, s)?;
                        let mut per: BTreeMap<usize, usize> = BTreeMap::new();
                        for v in &s.vertices {
                            let v = sut::v3(*v);
                            let cell = v.map(|x| (x / PITCH as f64).round() as i64);
                            let c = *index.get(&cell).ok_or_else(|| Fail::Violation(format!("entity {}: a vertex at {:?}", e, v)))?;
                            *per.entry(c).or_default() += 1;
                        }
                        for c in &want {
                            ensure!(
                                per.get(c) == Some(&24),
                                "entity {}, surface {:?}: {:?} vertices of the cube at {:?}",
                                e, name, per.get(c), center(&cubes[*c])
                            );
                        }
                        // every vertex is used, and each triangle joins vertices of one face
                        let mut used = vec![false; s.vertices.len()];
                        s.indices.iter().for_each(|i| used[*i] = true);
                        ensure!(
                            used.iter().all(|u| *u),
                            "entity {}, surface {:?}: {} of {} vertices are used by no triangle",
                            e, name, used.iter().filter(|u| !**u).count(), used.len()
                        );
                        whole(&by_cube(&tris(&s.vertices, &s.indices)?, &index, &cubes)?, &cubes, &want)
                            .map_err(|x| format!("entity {}, surface {:?}: {}", e, name, x))?;
                        for t in s.indices.chunks(3) {
                            ensure!(
                                t.iter().all(|i| s.normals[*i] == s.normals[t[0]]),
                                "entity {}, surface {:?}: a triangle of vertices with different normals",
                                e, name
                            );
                        }
                        ctx.count("cubes of crowds", want.len() as u64);
                    }
                }
                ensure!(left.is_empty(), "entity {}: no surface for {:?}", e, left.keys().take(3).collect::<Vec<_>>());
            }
            Judge::Collision => match shapes {
                Some(CollisionGeometry::Convex(s)) => {
                    ensure!(col == Col::Convex, "convex instead of concave collision");
                    ensure!(s.len() == ids.len(), "entity {}: {} shapes for {} brushes", e, s.len(), ids.len());
                    for (k, c) in s.iter().zip(ids) {
                        let o = center(&cubes[*c]);
                        let h = cubes[*c].half;
                        ensure!(near(sut::v3(k.center), o, 0.01), "entity {}: shape of the cube at {:?} is centered on {:?}", e, o, k.center);
                        ensure!(k.points.len() == 8, "entity {}: {} corners of the cube at {:?}", e, k.points.len(), o);
                        for p in &k.points {
                            let p = sut::v3(*p);
                            ensure!(
                                (0..3).all(|i| ((p[i] - o[i]).abs() - h).abs() < 0.01),
                                "entity {}: the cube at {:?} has a corner at {:?}",
                                e, o, p
                            );
                        }
                    }
                    ctx.count("cubes of crowds", ids.len() as u64);
                }
                Some(CollisionGeometry::Concave(s)) => {
                    ensure!(col == Col::Concave, "concave instead of convex collision");
                    ensure!(s.len() == 1, "entity {}: {} concave shapes", e, s.len());
                    ensure!(near(sut::v3(s[0].center), mid, 2.0), "entity {}: centered on {:?}, not {:?}", e, s[0].center, mid);
                    whole(&by_cube(&tris(&s[0].vertices, &s[0].indices)?, &index, &cubes)?, &cubes, ids)
                        .map_err(|x| format!("entity {}, concave collision: {}", e, x))?;
                    ensure!(
                        s[0].vertices.len() == 8 * ids.len(),
                        "entity {}: {} vertices for {} cubes",
                        e, s[0].vertices.len(), ids.len()
                    );
                    ctx.count("cubes of crowds", ids.len() as u64);
                }
                _ => return Err(format!("entity {}: no collision", e).into()),
            },
        }
        ctx.fp(mix(hash_str(&text), e as u64));
    }
    Ok(())
}

/// Crowds are rare: one case in `n`.
pub fn called(r: &mut Rng, n: u32) -> bool {
    r.chance(1, n) || std::env::var_os("QMON_CROWD").is_some()
}

/// A crowd whose lines are rewritten here and there, keeping its meaning.
pub fn rewritten(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let c = make(r, false);
    let want = sut::dump_tree(&sut::run_ok(&c.text, &c.cfg)?);
    let crlf = r.chance(1, 2);
    let every = *r.pick(&[3usize, 50, 1000]);
    let mut text = String::new();
    for l in c.text.lines() {
        if r.below(every) == 0 {
            match r.below(4) {
                0 => text += "// entity 7\n",
                1 => text += "\n",
                2 => text += " \t\n",
                _ => text += "//\n",
            }
        }
        text += l;
        if r.below(every) == 0 {
            text += " ";
        }
        text += if crlf { "\r\n" } else { "\n" };
    }
    ctx.inputs.clear();
    ctx.input("input.map", text.as_bytes());
    ctx.input("canonical.map", c.text.as_bytes());
    ctx.sample(|| format!("{} cubes, rewritten here and there", c.cubes.len()));
    let got = sut::dump_tree(&sut::run_ok(&text, &c.cfg)?);
    ensure!(
        got == want,
        "a map of {} brushes with other white space and comments gives a different tree: {}",
        c.cubes.len(), crate::checks_ent::first_diff(&want, &got)
    );
    ctx.count("large maps rewritten", 1);
    ctx.fp(hash_str(&text));
    Ok(())
}
