//! Reference geometry, in f64, written independently of the code under test:
//! a brush is the intersection of the half-spaces behind its planes, and each
//! face is the convex polygon that the solid cuts out of that plane.
pub type V = [f64; 3];

pub fn add(a: V, b: V) -> V {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn mul(a: V, k: f64) -> V {
    [a[0] * k, a[1] * k, a[2] * k]
}
pub fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: V, b: V) -> V {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
pub fn len(a: V) -> f64 {
    dot(a, a).sqrt()
}
pub fn norm(a: V) -> V {
    mul(a, 1.0 / len(a))
}
pub fn dist(a: V, b: V) -> f64 {
    len(sub(a, b))
}
pub fn finite(a: V) -> bool {
    a.iter().all(|x| x.is_finite())
}

#[derive(Clone, Debug)]
pub struct Plane {
    pub p: [V; 3],
    pub n: V,
    pub d: f64,
}

impl Plane {
    pub fn new(p: [V; 3]) -> Plane {
        let n = norm(cross(sub(p[2], p[0]), sub(p[1], p[0])));
        Plane {
            p,
            n,
            d: dot(n, p[0]),
        }
    }
    /// signed distance, computed close to the plane's own points
    pub fn side(&self, x: V) -> f64 {
        dot(self.n, sub(x, self.p[0]))
    }
}

#[derive(Clone, Debug)]
pub struct RefVertex {
    pub pos: V,
    /// indices of all planes through this vertex
    pub planes: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct RefFace {
    pub plane: usize,
    /// vertex indices, counter-clockwise seen from outside
    pub verts: Vec<usize>,
    pub area: f64,
    pub mean: V,
}

#[derive(Clone, Debug)]
pub struct RefBrush {
    pub planes: Vec<Plane>,
    pub verts: Vec<RefVertex>,
    /// one per plane; empty `verts` for planes that do not bound the solid
    pub faces: Vec<RefFace>,
    /// every vertex lies on exactly three planes
    pub simple: bool,
    pub center: V,
    pub volume: f64,
    /// how far single precision may displace a corner, with a wide margin
    pub tol: f64,
    /// no corner is further from `center` than this
    pub radius: f64,
}

/// Planes that meet more steeply than this are the code's to resolve.
pub const MIN_DENOM: f64 = 0.004;

/// Analyses a brush. None when the brush is too ill-conditioned (or empty) for
/// the exact vertex set to be a fair demand on single-precision code.
pub fn analyse(planes: &[Plane]) -> Option<RefBrush> {
    let n = planes.len();
    if planes.iter().any(|p| !finite(p.n)) {
        return None;
    }
    // the scale of the brush and its distance from the world origin
    let all: Vec<V> = planes.iter().flat_map(|p| p.p.iter().cloned()).collect();
    let mid = mul(all.iter().fold([0.0; 3], |a, b| add(a, *b)), 1.0 / all.len().max(1) as f64);
    let r0 = all.iter().map(|p| dist(*p, mid)).fold(0.0, f64::max);
    let m0 = all.iter().flat_map(|p| p.iter().map(|x| x.abs())).fold(0.0, f64::max);
    let tol_at = |den: f64| 5e-4 + 4e-6 * m0 + 6e-6 * r0 + 2e-6 * r0 / den;
    let mut tol: f64 = 0.0;
    let mut doubtful: Vec<f64> = vec![];
    let mut worst = 0;
    let mut verts: Vec<RefVertex> = Vec::new();
    for i in 0..n {
        for j in i + 1..n {
            for k in j + 1..n {
                let (a, b, c) = (&planes[i], &planes[j], &planes[k]);
                let bc = cross(b.n, c.n);
                let den = dot(a.n, bc);
                if den.abs() < 1e-7 {
                    continue;
                }
                let o = a.p[0];
                let num = add(
                    mul(cross(c.n, a.n), b.side(o) * -1.0),
                    mul(cross(a.n, b.n), c.side(o) * -1.0),
                );
                let x = add(o, mul(num, 1.0 / den));
                // how far outside the solid, as far as that matters below
                let cut = if den.abs() < MIN_DENOM { 4.0 * r0 + 4.0 * tol_at(MIN_DENOM) } else { 4.0 * tol_at(MIN_DENOM) + 1.0 };
                let mut viol = planes[worst].side(x);
                for (q, p) in planes.iter().enumerate() {
                    if viol > cut {
                        break;
                    }
                    let s = p.side(x);
                    if s > viol {
                        viol = s;
                        worst = q;
                    }
                }
                if viol > cut {
                    continue;
                }
                if den.abs() < MIN_DENOM {
                    if viol < 4.0 * tol_at(den.abs()).min(r0) {
                        return None;
                    }
                    continue;
                }
                if viol > 1e-5 {
                    if viol < 3.0 * tol_at(den.abs()) {
                        return None;
                    }
                    doubtful.push(viol);
                    continue;
                }
                tol = tol.max(tol_at(den.abs()));
                let on: Vec<usize> = (0..n).filter(|q| planes[*q].side(x).abs() < 1e-5).collect();
                match verts.iter_mut().find(|v| dist(v.pos, x) < 1e-4) {
                    Some(v) => {
                        for q in on {
                            if !v.planes.contains(&q) {
                                v.planes.push(q);
                            }
                        }
                    }
                    None => verts.push(RefVertex { pos: x, planes: on }),
                }
                if verts.len() > 4000 {
                    return None;
                }
            }
        }
    }
    if verts.len() < 4 {
        return None;
    }
    let zone = (3.0 * tol).max(0.006);
    let mindist = (6.0 * tol).max(0.02);
    if doubtful.iter().any(|v| *v < zone) {
        return None;
    }
    for i in 0..verts.len() {
        for p in 0..n {
            let s = planes[p].side(verts[i].pos).abs();
            // neither clearly on nor clearly off
            if s > 1e-5 && s < zone {
                return None;
            }
        }
        for j in i + 1..verts.len() {
            if dist(verts[i].pos, verts[j].pos) < mindist {
                return None;
            }
        }
    }
    let mut faces = Vec::new();
    for p in 0..n {
        let mut vs: Vec<usize> = (0..verts.len())
            .filter(|v| verts[*v].planes.contains(&p))
            .collect();
        if vs.is_empty() {
            faces.push(RefFace {
                plane: p,
                verts: vs,
                area: 0.0,
                mean: [0.0; 3],
            });
            continue;
        }
        if vs.len() < 3 {
            return None;
        }
        let mean = mul(
            vs.iter().fold([0.0; 3], |a, v| add(a, verts[*v].pos)),
            1.0 / vs.len() as f64,
        );
        let nrm = planes[p].n;
        let u = norm(sub(verts[vs[0]].pos, mean));
        let w = cross(nrm, u);
        vs.sort_by(|a, b| {
            let ang = |v: usize| {
                let r = sub(verts[v].pos, mean);
                dot(r, w).atan2(dot(r, u))
            };
            ang(*a).partial_cmp(&ang(*b)).unwrap()
        });
        let mut area = 0.0;
        for q in 1..vs.len() - 1 {
            let c = cross(
                sub(verts[vs[q]].pos, verts[vs[0]].pos),
                sub(verts[vs[q + 1]].pos, verts[vs[0]].pos),
            );
            area += 0.5 * dot(c, nrm);
        }
        if area < mindist * mindist {
            return None;
        }
        faces.push(RefFace {
            plane: p,
            verts: vs,
            area,
            mean,
        });
    }
    let simple = verts.iter().all(|v| v.planes.len() == 3);
    let real: Vec<&RefFace> = faces.iter().filter(|f| !f.verts.is_empty()).collect();
    let center = mul(
        real.iter().fold([0.0; 3], |a, f| add(a, f.mean)),
        1.0 / real.len() as f64,
    );
    // interior must be solid
    let inside = mul(
        verts.iter().fold([0.0; 3], |a, v| add(a, v.pos)),
        1.0 / verts.len() as f64,
    );
    if planes.iter().any(|p| p.side(inside) > -mindist) {
        return None;
    }
    // volume from distinct faces only (coplanar repeats count once)
    let mut volume = 0.0;
    let (mut closed, mut total) = ([0.0; 3], 0.0);
    for (i, f) in faces.iter().enumerate() {
        if f.verts.is_empty() {
            continue;
        }
        let dup = faces[..i].iter().any(|g| {
            !g.verts.is_empty() && dot(planes[g.plane].n, planes[f.plane].n) > 0.999999 && {
                planes[g.plane].side(planes[f.plane].p[0]).abs() < 1e-4
            }
        });
        if !dup {
            closed = add(closed, mul(planes[f.plane].n, f.area));
            total += f.area;
            volume += f.area * -planes[f.plane].side(inside) / 3.0;
        }
    }
    // an unbounded solid has corners too, but its faces do not close
    if len(closed) > 1e-4 * total {
        return None;
    }
    let radius = verts.iter().map(|v| dist(v.pos, center)).fold(0.0, f64::max);
    Some(RefBrush {
        planes: planes.to_vec(),
        verts,
        faces,
        simple,
        center,
        volume,
        tol,
        radius,
    })
}

/// distance from x (assumed near the plane) to the polygon; 0 when inside
pub fn polygon_excess(b: &RefBrush, f: &RefFace, x: V) -> f64 {
    let n = b.planes[f.plane].n;
    let mut worst: f64 = b.planes[f.plane].side(x).abs();
    let k = f.verts.len();
    for q in 0..k {
        let a = b.verts[f.verts[q]].pos;
        let c = b.verts[f.verts[(q + 1) % k]].pos;
        // outward direction of edge a->c for a ccw polygon
        let out = norm(cross(sub(c, a), n));
        worst = worst.max(dot(out, sub(x, a)));
    }
    worst
}
