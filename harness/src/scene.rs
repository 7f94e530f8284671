//! Reading a scene tree back against the map it came from: the entity
//! hierarchy, pivots, and the faces that should exist.
use crate::geom::{self, V};
use crate::mapgen::*;
use crate::sut::{self, Cfg, Col, Vis};
use quarchitect::scene_tree::*;

pub struct ENode {
    pub ent: usize,
    pub children: Vec<ENode>,
}

/// For every entity, the index of the entity whose group it is placed in.
pub fn parents(m: &GMap) -> Vec<Option<usize>> {
    let mut ids = std::collections::HashMap::new();
    for (i, e) in m.entities.iter().enumerate() {
        if let Some(id) = e.get("_tb_id") {
            ids.entry(id).or_insert(i);
        }
    }
    m.entities
        .iter()
        .map(|e| {
            if e.get("classname") == Some("worldspawn") {
                return None;
            }
            ids.get(e.get("_tb_group")?).copied()
        })
        .collect()
}

/// For maps whose group ids are unique and whose group references form a forest
/// (references to no group count as none): worldspawn first, then the rest.
pub fn hierarchy(m: &GMap) -> Vec<ENode> {
    fn sub(children: &Vec<Vec<usize>>, p: usize) -> ENode {
        ENode {
            ent: p,
            children: children[p].iter().map(|c| sub(children, *c)).collect(),
        }
    }
    let ps = parents(m);
    let mut children = vec![vec![]; ps.len()];
    for (i, p) in ps.iter().enumerate() {
        if let Some(p) = p {
            if *p != i {
                children[*p].push(i);
            }
        }
    }
    let ws = m
        .entities
        .iter()
        .position(|e| e.get("classname") == Some("worldspawn"))
        .expect("worldspawn");
    let mut out = vec![sub(&children, ws)];
    for i in 0..m.entities.len() {
        if i != ws && ps[i].is_none() {
            out.push(sub(&children, i));
        }
    }
    out
}

pub struct EView<'a> {
    pub ent: usize,
    pub actor: &'a Actor,
    pub node: &'a SceneTreeNode,
    /// sum of the origins from the root
    pub world: V,
    pub parent: Option<usize>,
    pub vis: Option<(&'a SceneTreeNode, &'a Vec<MeshSurface>)>,
    pub col: Option<(&'a SceneTreeNode, &'a CollisionGeometry)>,
}

pub struct TreeView<'a> {
    /// in expected order; index into it by entity with `of`
    pub ents: Vec<EView<'a>>,
    /// nodes between worldspawn and the first expected root
    pub layers: Vec<&'a SceneTreeNode>,
}

impl<'a> TreeView<'a> {
    pub fn of(&self, ent: usize) -> &EView<'a> {
        self.ents.iter().find(|e| e.ent == ent).unwrap()
    }
}

pub fn actor_parts(
    n: &SceneTreeNode,
) -> Option<(&Actor, Vec<&SceneTreeNode>, Vec<&SceneTreeNode>)> {
    match &n.data {
        SceneTreeType::Actor(a, ch) => {
            let (ac, geo): (Vec<_>, Vec<_>) = ch
                .iter()
                .partition(|c| matches!(c.data, SceneTreeType::Actor(_, _)));
            Some((a, ac, geo))
        }
        _ => None,
    }
}

fn walk<'a>(
    m: &GMap,
    e: &ENode,
    n: &'a SceneTreeNode,
    base: V,
    parent: Option<usize>,
    out: &mut Vec<EView<'a>>,
) -> Result<(), String> {
    let (a, actors, geo) =
        actor_parts(n).ok_or_else(|| format!("entity {}: node is not an actor", e.ent))?;
    let want = m.entities[e.ent].get("classname").unwrap();
    if a.name != want {
        return Err(format!(
            "entity {} is {:?}, but the actor in its place is {:?}",
            e.ent, want, a.name
        ));
    }
    if let Some(uid) = m.entities[e.ent].get("uid") {
        if let Some(p) = a.properties.0.get("uid") {
            let got = sut::dump_property(p);
            if got != format!("Integer({})", uid) {
                return Err(format!(
                    "entity {} (uid {}) is expected here, found the actor with uid {}",
                    e.ent, uid, got
                ));
            }
        }
    }
    let world = geom::add(base, sut::v3(n.origin));
    let (mut vis, mut col) = (None, None);
    for g in geo {
        match &g.data {
            SceneTreeType::VisualGeometry(VisualGeometry::Mesh(mesh)) => {
                if vis.is_some() {
                    return Err(format!("entity {}: two visual geometry nodes", e.ent));
                }
                vis = Some((g, &mesh.surfaces));
            }
            SceneTreeType::CollisionGeometry(c) => {
                if col.is_some() {
                    return Err(format!("entity {}: two collision geometry nodes", e.ent));
                }
                if !matches!(c, CollisionGeometry::None) {
                    col = Some((g, c));
                }
            }
            _ => (),
        }
    }
    if actors.len() != e.children.len() {
        return Err(format!(
            "entity {} ({}) should have {} child actors, has {}: expected {:?}, found {:?}",
            e.ent,
            want,
            e.children.len(),
            actors.len(),
            e.children.iter().map(|c| c.ent).collect::<Vec<_>>(),
            actors
                .iter()
                .map(|x| actor_parts(x).unwrap().0.name.clone())
                .collect::<Vec<_>>()
        ));
    }
    out.push(EView {
        ent: e.ent,
        actor: a,
        node: n,
        world,
        parent,
        vis,
        col,
    });
    for (c, x) in e.children.iter().zip(actors) {
        walk(m, c, x, world, Some(e.ent), out)?;
    }
    Ok(())
}

/// `layers`: whether extra nodes may stand between worldspawn and the other roots
pub fn view<'a>(m: &GMap, tree: &'a [SceneTreeNode], layers: bool) -> Result<TreeView<'a>, String> {
    let h = hierarchy(m);
    if tree.len() < h.len() || (!layers && tree.len() > h.len()) {
        return Err(format!(
            "expected {} top-level nodes, found {}",
            h.len(),
            tree.len()
        ));
    }
    let extra = tree.len() - h.len();
    let mut ents = vec![];
    walk(m, &h[0], &tree[0], [0.0; 3], None, &mut ents)?;
    for (e, n) in h[1..].iter().zip(&tree[1 + extra..]) {
        walk(m, e, n, [0.0; 3], None, &mut ents)?;
    }
    Ok(TreeView {
        ents,
        layers: tree[1..1 + extra].iter().collect(),
    })
}

pub fn parse_origin(s: &str) -> V {
    let mut c = s.split(' ');
    let mut f = || {
        c.next()
            .and_then(|x| x.parse::<f32>().ok())
            .unwrap_or(0.0) as f64
    };
    let x = f();
    let y = f();
    let z = f();
    [x, y, z]
}

pub fn mag(v: V) -> f64 {
    v.iter().fold(0.0, |a: f64, x| a.max(x.abs()))
}

/// Some(exact pivot), or None when only bounds can be demanded
pub fn pivot(e: &GEntity) -> Option<V> {
    if let Some(o) = e.get("origin") {
        return Some(parse_origin(o));
    }
    if e.brushes.is_empty() {
        return Some([0.0; 3]);
    }
    let mut acc = [0.0; 3];
    let mut n = 0;
    for b in &e.brushes {
        match (&b.reff, b.oddity) {
            (Some(r), None) if r.simple => {
                acc = geom::add(acc, r.center);
                n += 1;
            }
            (None, Some(_)) => (),
            _ => return None,
        }
    }
    Some(if n == 0 {
        [0.0; 3]
    } else {
        geom::mul(acc, 1.0 / n as f64)
    })
}

/// bounding box of everything the entity's brushes enclose
pub fn bounds(e: &GEntity) -> Option<(V, V)> {
    let mut lo = [f64::INFINITY; 3];
    let mut hi = [f64::NEG_INFINITY; 3];
    for b in &e.brushes {
        if let Some(r) = &b.reff {
            for v in &r.verts {
                for k in 0..3 {
                    lo[k] = lo[k].min(v.pos[k]);
                    hi[k] = hi[k].max(v.pos[k]);
                }
            }
        }
    }
    if lo[0].is_finite() {
        Some((lo, hi))
    } else {
        None
    }
}

// ------------------------------------------------------------- faces

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct FaceId {
    pub brush: usize,
    pub plane: usize,
}

/// The faces that should be visible on this entity, with their surface key.
pub fn visible_faces(cfg: &Cfg, e: &GEntity) -> Vec<(FaceId, Option<String>)> {
    let mut out = vec![];
    for (bi, b) in e.brushes.iter().enumerate() {
        let all_black = b
            .planes
            .iter()
            .all(|p| cfg.bl_brush.iter().any(|t| *t == p.tex_key()));
        if all_black {
            continue;
        }
        out.extend(real_faces(b).into_iter().filter_map(|pi| {
            let key = b.planes[pi].tex_key();
            if cfg.bl_plane.iter().any(|t| *t == key) {
                return None;
            }
            let id = FaceId { brush: bi, plane: pi };
            Some((id, cfg.tex_size(&key).map(|_| key)))
        }));
    }
    out
}

pub fn real_faces(b: &GBrush) -> Vec<usize> {
    match &b.reff {
        Some(r) => (0..b.planes.len())
            .filter(|p| !r.faces[*p].verts.is_empty())
            .collect(),
        None => vec![],
    }
}

pub fn shows_mesh(cfg: &Cfg, e: &GEntity) -> bool {
    matches!(
        cfg.def(e.get("classname").unwrap_or("")).and_then(|d| d.brush),
        Some((Vis::Mesh, _))
    )
}
pub fn collision_kind(cfg: &Cfg, e: &GEntity) -> Col {
    match cfg.def(e.get("classname").unwrap_or("")).and_then(|d| d.brush) {
        Some((_, c)) => c,
        None => Col::None,
    }
}

// ------------------------------------------------------------- formulas

pub fn pos_tol(m: f64) -> f64 {
    0.02 + 6e-6 * m
}

fn d3(v: [f32; 3]) -> V {
    [v[0] as f64, v[1] as f64, v[2] as f64]
}

/// 0 = top/bottom, 1 = y-facing, 2 = x-facing. Where the plane's points make the normal
/// exact in single precision, a tie goes to the first of these; otherwise every axis whose
/// extent is within float noise of the largest is allowed.
pub fn dominant_axes(p: &GPlane) -> Vec<usize> {
    let n = p.plane().n;
    let a = [n[2].abs(), n[1].abs(), n[0].abs()];
    let m = a.iter().cloned().fold(0.0, f64::max);
    let out: Vec<usize> = (0..3).filter(|k| a[*k] >= m - 1e-5).collect();
    if out.len() > 1 {
        if let Some(c) = exact_normal(p) {
            let c = [c[2].abs(), c[1].abs(), c[0].abs()];
            let m = c.iter().cloned().fold(0.0, f64::max);
            return vec![(0..3).find(|k| c[*k] == m).unwrap()];
        }
    }
    out
}

/// Whether the plane's normal is exactly diagonal: which of up, y and x tie for the largest.
pub fn diagonal(p: &GPlane) -> Option<Vec<usize>> {
    let c = exact_normal(p)?;
    let c = [c[2].abs(), c[1].abs(), c[0].abs()];
    let m = c.iter().cloned().fold(0.0, f64::max);
    let t: Vec<usize> = (0..3).filter(|k| c[*k] == m).collect();
    if t.len() > 1 { Some(t) } else { None }
}

/// The plane's normal before scaling it to unit length, if single precision computes it
/// without rounding from any pair of its edges and keeps ties when scaling it.
fn exact_normal(p: &GPlane) -> Option<V> {
    let f = |x: f64| x as f32 as f64 == x;
    let q = p.p.map(d3);
    let mut out = None;
    for k in 0..3 {
        let (a, b) = (geom::sub(q[(k + 2) % 3], q[k]), geom::sub(q[(k + 1) % 3], q[k]));
        let c = geom::cross(a, b);
        for i in 0..3 {
            let (j, l) = ((i + 1) % 3, (i + 2) % 3);
            if !(f(a[i]) && f(b[i]) && f(a[j] * b[l]) && f(a[l] * b[j]) && f(c[i])) {
                return None;
            }
        }
        // components that differ must not become equal by rounding
        for i in 0..3 {
            let d = (c[i].abs() - c[(i + 1) % 3].abs()).abs();
            if d != 0.0 && d < 1e-5 * mag(c) {
                return None;
            }
        }
        out = Some(c);
    }
    out
}

/// Expected UVs at x (one per allowed projection) with their tolerance.
pub fn expect_uv(p: &GPlane, size: (u32, u32), x: V) -> Vec<([f64; 2], [f64; 2])> {
    let sz = [size.0 as f64, size.1 as f64];
    let sc = [p.scale[0] as f64, p.scale[1] as f64];
    let m = mag(x);
    let tol = |k: usize, reach: f64, off: f64, uv: f64| {
        (reach * 1e-5 + off.abs() * 1e-6) / (sz[k] * sc[k].abs()) + off.abs() * 1e-6 / sz[k] + uv.abs() * 1e-5 + 2e-5
    };
    match &p.uv {
        GUv::Std(u, v) => {
            let off = [*u as f64, *v as f64];
            dominant_axes(p)
                .into_iter()
                .map(|ax| {
                    let (a, b) = match ax {
                        0 => (x[0], -x[1]),
                        1 => (x[0], -x[2]),
                        _ => (x[1], -x[2]),
                    };
                    let (s, c) = (p.rot as f64).to_radians().sin_cos();
                    let r = [c * a - s * b, s * a + c * b];
                    let uv = [
                        r[0] / sz[0] / sc[0] + off[0] / sz[0],
                        r[1] / sz[1] / sc[1] + off[1] / sz[1],
                    ];
                    (
                        uv,
                        [tol(0, 2.0 * m, off[0], uv[0]), tol(1, 2.0 * m, off[1], uv[1])],
                    )
                })
                .collect()
        }
        GUv::Valve(ua, uo, va, vo) => {
            let ax = [d3(*ua), d3(*va)];
            let off = [*uo as f64, *vo as f64];
            let f = |k: usize| geom::dot(ax[k], x) / sz[k] / sc[k] + off[k] / sz[k];
            let uv = [f(0), f(1)];
            let t = |k: usize| tol(k, 3.0 * m * geom::len(ax[k]).max(0.1), off[k], uv[k]);
            vec![(uv, [t(0), t(1)])]
        }
    }
}

/// Expected (tangent, handedness) choices of a face.
pub fn expect_tangent(p: &GPlane) -> Vec<(V, f64)> {
    let n = p.plane().n;
    match &p.uv {
        GUv::Valve(ua, _, va, _) => {
            let (u, v) = (d3(*ua), d3(*va));
            let t = geom::dot(geom::cross(n, u), v);
            let mut out = vec![];
            if t < 1e-5 {
                out.push((u, 1.0));
            }
            if t > -1e-5 {
                out.push((u, -1.0));
            }
            out
        }
        GUv::Std(_, _) => dominant_axes(p)
            .into_iter()
            .map(|ax| {
                let (t, s): (V, f64) = match ax {
                    0 => ([1., 0., 0.], n[2].signum()),
                    1 => ([1., 0., 0.], -n[1].signum()),
                    _ => ([0., 1., 0.], n[0].signum()),
                };
                let a = -(p.rot as f64).to_radians() * s;
                (
                    crate::mapgen::rotate(t, n, a),
                    s * (p.scale[1] as f64).signum(),
                )
            })
            .collect(),
    }
}

pub fn near(a: V, b: V, t: f64) -> bool {
    (0..3).all(|k| (a[k] - b[k]).abs() <= t)
}

/// Phong normals allowed at reference vertex `v` on plane `pi`.
pub fn expect_phong(b: &GBrush, pi: usize, v: usize, angle: Option<f64>) -> Vec<V> {
    let r = b.reff.as_ref().unwrap();
    let n0 = r.planes[pi].n;
    let others: Vec<usize> = r.verts[v]
        .planes
        .iter()
        .cloned()
        .filter(|q| *q != pi)
        .collect();
    let mut out = vec![];
    for i in 0..others.len() {
        for j in i + 1..others.len() {
            let mut sums = vec![n0];
            for q in [others[i], others[j]] {
                let nq = r.planes[q].n;
                let mut next = vec![];
                let (with, without) = match angle {
                    None => (true, false),
                    Some(a) => {
                        // planes differ by 0 to 180 degrees
                        let th = ((a + 0.01).max(0.0).min(180.0) * 0.0174533_f64).cos();
                        let d = geom::dot(n0, nq);
                        (d > th - 2e-5, d <= th + 2e-5)
                    }
                };
                for s in &sums {
                    if with {
                        next.push(geom::add(*s, nq));
                    }
                    if without {
                        next.push(*s);
                    }
                }
                sums = next;
            }
            for s in sums {
                if geom::len(s) > 1e-3 {
                    out.push(geom::norm(s));
                }
            }
        }
    }
    out
}

pub fn phong_of(e: &GEntity) -> Option<Option<f64>> {
    if e.get("_phong") == Some("1") {
        Some(
            e.get("_phong_angle")
                .and_then(|a| a.parse::<f32>().ok())
                .map(|a| a as f64),
        )
    } else {
        None
    }
}

// ------------------------------------------------------------- meshes

pub fn surface_shape(ent: usize, s: &MeshSurface) -> Result<(), String> {
    let n = s.vertices.len();
    let l = [
        ("normals", s.normals.len()),
        ("tangents", s.tangents.len()),
        ("uvs", s.uvs.as_ref().map_or(n, |u| u.len())),
        ("colors", s.colors.as_ref().map_or(n, |u| u.len())),
    ];
    for (k, c) in l {
        if c != n {
            return Err(format!(
                "entity {} surface {:?}: {} vertices but {} {}",
                ent, s.texture, n, c, k
            ));
        }
    }
    if s.indices.len() % 3 != 0 {
        return Err(format!(
            "entity {} surface {:?}: {} indices is not whole triangles",
            ent,
            s.texture,
            s.indices.len()
        ));
    }
    if let Some(i) = s.indices.iter().find(|i| **i >= n) {
        return Err(format!(
            "entity {} surface {:?}: index {} out of range of {} vertices",
            ent, s.texture, i, n
        ));
    }
    Ok(())
}

/// area vector (clockwise seen from outside => along -n)
pub fn tri_area(a: V, b: V, c: V) -> V {
    geom::mul(geom::cross(geom::sub(b, a), geom::sub(c, a)), 0.5)
}
