//! The values a host configures a build with: kinds and their numbers,
//! constructors, defaults, equality, lookups.
use crate::ensure;
use crate::fw::*;
use crate::mapgen::*;
use crate::rng::*;
use crate::scene::*;
use crate::sut::{self, guarded};
use quarchitect::game_data::forge::{self, Choice, ChoiceData, ClassType, Metadata, PropertyData};
use quarchitect::game_data::*;
use quarchitect::scene_tree::*;
use quarchitect::{Color, Config, Texture, TextureBlacklist, TextureInfo, Vector2, Vector3, Vertex};
use std::collections::{HashMap, HashSet};

// ================================================================= C25

fn text(r: &mut Rng) -> String {
    match r.below(6) {
        0 => String::new(),
        1 => (*r.pick(&["0", "1", "2", "None", "none", "Convex", "res://a b.tscn", "\u{e9}\u{4e16}", "a\"b", "\\", " x ", "*water0"])).to_string(),
        2 => "x".repeat(r.below(400)),
        _ => (0..r.range(1, 12))
            .map(|_| *r.pick(&['a', 'b', 'Z', '0', '9', '_', '.', '/', ' ', '-', '+', '{', '"', '\u{e9}', '\u{4e16}', '\n', '\t']))
            .collect(),
    }
}

fn number(r: &mut Rng) -> i64 {
    let k = r.range(-1, 4);
    match r.below(6) {
        0 => r.range(-4, 6),
        // numbers that only resemble a kind's: equal to it in their low bits
        1 => k.wrapping_add(1i64.wrapping_shl(*r.pick(&[1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 48, 62, 63]))),
        2 => k.wrapping_sub(1i64.wrapping_shl(*r.pick(&[1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 48, 62, 63]))),
        3 => *r.pick(&[i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1, i32::MIN as i64, i32::MAX as i64, u32::MAX as i64]),
        4 => k,
        _ => {
            let hi = r.range(i32::MIN as i64, i32::MAX as i64);
            (hi << 32) ^ r.range(0, u32::MAX as i64)
        }
    }
}

pub fn c25(ctx: &mut Ctx, r: &mut Rng) -> Res {
    ctx.inputs.clear();
    let mut last = String::new();
    for _ in 0..r.range(1, 30) {
        let i = number(r);
        // numbers to kinds
        let known = |names: &[&str], i: i64| {
            if i >= 0 && (i as usize) < names.len() {
                Ok(names[i as usize].to_string())
            } else {
                Err(())
            }
        };
        let which = r.below(3);
        let (what, got, back, want): (&str, Result<String, String>, Option<i64>, Result<String, ()>) = match which {
            0 => {
                let g = guarded(|| CollisionType::from(i));
                let b = g.as_ref().ok().map(|k| (*k).into());
                (
                    "collision type",
                    g.map(|k| match k {
                        CollisionType::None => "none".into(),
                        CollisionType::Convex => "convex".into(),
                        CollisionType::Concave => "concave".into(),
                    }),
                    b,
                    known(&["none", "convex", "concave"], i),
                )
            }
            1 => {
                let g = guarded(|| VisualType::from(i));
                let b = g.as_ref().ok().map(|k| (*k).into());
                (
                    "visual type",
                    g.map(|k| match k {
                        VisualType::None => "none".into(),
                        VisualType::Mesh => "mesh".into(),
                    }),
                    b,
                    known(&["none", "mesh"], i),
                )
            }
            _ => {
                let g = guarded(|| ClassType::from(i));
                let b = g.as_ref().ok().map(|k| (*k).into());
                (
                    "class type",
                    g.map(|k| match k {
                        ClassType::BaseClass => "base".into(),
                        ClassType::PointClass => "point".into(),
                        ClassType::SolidClass => "solid".into(),
                    }),
                    b,
                    known(&["base", "point", "solid"], i),
                )
            }
        };
        match (&got, &want) {
            (Ok(g), Ok(w)) => {
                ensure!(g == w, "{} {} is {:?} instead of {:?}", what, i, g, w);
                ensure!(back == Some(i), "{} {:?}, made from {}, converts back to {:?}", what, g, i, back);
                ctx.count("numbers that stand for a kind", 1);
            }
            (Err(_), Err(_)) => ctx.count("numbers that stand for no kind, refused", 1),
            (Ok(g), Err(_)) => return Err(format!("{} {} is no {}, but became {:?}", what, i, what, g).into()),
            (Err(e), Ok(w)) => return Err(format!("{} {} ({:?}) was refused: {}", what, i, w, e).into()),
        }
        ctx.fp(mix(which as u64, i as u64));
        // kinds to numbers, whatever text they carry
        let (s, t) = (text(r), text(r));
        let v = Vector3::new(r.f() as f32 * 100.0, -1.0, 0.0);
        let kinds: [(&str, i64, i64); 13] = [
            ("EntityType::Placeholder", EntityType::Placeholder.into(), 0),
            ("EntityType::Class", EntityType::Class(s.clone()).into(), 1),
            ("EntityType::class", EntityType::class(&s).into(), 1),
            ("EntityType::Prefab", EntityType::Prefab(s.clone()).into(), 2),
            ("EntityType::prefab", EntityType::prefab(&s).into(), 2),
            ("ComponentType::None", ComponentType::None.into(), 0),
            ("ComponentType::Script", ComponentType::Script(t.clone()).into(), 1),
            ("Metadata::Base", i32::from(Metadata::Base(vec![s.clone(); r.below(3)])) as i64, 0),
            ("Metadata::base", i32::from(Metadata::base(vec![t.clone(); r.below(3)])) as i64, 0),
            ("Metadata::Color", i32::from(Metadata::Color(Color::new(1.0, 0.0, r.f() as f32))) as i64, 1),
            ("Metadata::color", i32::from(Metadata::color(Color::new(1.0, 0.0, r.f() as f32))) as i64, 1),
            ("Metadata::Size", i32::from(Metadata::Size(v, v)) as i64, 2),
            ("Metadata::size", i32::from(Metadata::size(v, v)) as i64, 2),
        ];
        for (k, got, want) in &kinds {
            ensure!(got == want, "{} (with {:?}) has the number {} instead of {}", k, s, got, want);
        }
        for (k, w) in [(CollisionType::None, 0i64), (CollisionType::Convex, 1), (CollisionType::Concave, 2)] {
            let n: i64 = k.into();
            ensure!(n == w, "{:?} collision has the number {} instead of {}", k, n, w);
        }
        for (k, w) in [(VisualType::None, 0i64), (VisualType::Mesh, 1)] {
            let n: i64 = k.into();
            ensure!(n == w, "visual type {:?} has the number {} instead of {}", k, n, w);
        }
        for (k, w) in [(ClassType::BaseClass, 0i64), (ClassType::PointClass, 1), (ClassType::SolidClass, 2)] {
            let n: i64 = k.into();
            ensure!(n == w, "{:?} has the number {} instead of {}", k, n, w);
        }
        ctx.count("kinds converted to numbers", 21);
        last = format!("{} {} -> {:?}; texts {:?} {:?}", what, i, want, s, t);
    }
    ctx.sample(|| last);
    Ok(())
}

// ================================================================= C26

fn real(r: &mut Rng) -> f32 {
    match r.below(4) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 255.0, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY, f32::NEG_INFINITY]),
        1 => r.range(-1000, 1000) as f32,
        _ => f32::from_bits(r.range(0, u32::MAX as i64) as u32),
    }
}
fn vec3(r: &mut Rng) -> Vector3 {
    Vector3::new(real(r), real(r), real(r))
}
fn bits3(v: Vector3) -> [u32; 3] {
    [v.x().to_bits(), v.y().to_bits(), v.z().to_bits()]
}
fn bitsc(c: &Color) -> [u32; 3] {
    [c.r.to_bits(), c.g.to_bits(), c.b.to_bits()]
}
fn int(r: &mut Rng) -> i32 {
    let x = r.range(i32::MIN as i64, i32::MAX as i64) as i32;
    *r.pick(&[0, 1, -1, 2, 255, 256, 65535, i32::MIN, i32::MAX, x, x, x])
}

fn entity_type(r: &mut Rng) -> (EntityType, String) {
    let s = text(r);
    match r.below(5) {
        0 => (EntityType::Placeholder, "placeholder".into()),
        1 => (EntityType::Class(s.clone()), format!("class {}", s)),
        2 => (EntityType::class(&s), format!("class {}", s)),
        3 => (EntityType::Prefab(s.clone()), format!("prefab {}", s)),
        _ => (EntityType::prefab(&s), format!("prefab {}", s)),
    }
}
fn et_name(e: &EntityType) -> String {
    match e {
        EntityType::Placeholder => "placeholder".into(),
        EntityType::Class(s) => format!("class {}", s),
        EntityType::Prefab(s) => format!("prefab {}", s),
    }
}
fn component(r: &mut Rng) -> ComponentType {
    if r.chance(1, 2) {
        ComponentType::None
    } else {
        ComponentType::Script(text(r))
    }
}
fn pat(r: &mut Rng) -> (PropertyApplicationType, u8) {
    match r.below(3) {
        0 => (PropertyApplicationType::Properties, 0),
        1 => (PropertyApplicationType::Dictionary, 1),
        _ => (PropertyApplicationType::Metadata, 2),
    }
}
fn pat_no(p: &PropertyApplicationType) -> u8 {
    match p {
        PropertyApplicationType::Properties => 0,
        PropertyApplicationType::Dictionary => 1,
        PropertyApplicationType::Metadata => 2,
    }
}
fn visual(r: &mut Rng) -> VisualType {
    *r.pick(&[VisualType::None, VisualType::Mesh])
}
fn collision(r: &mut Rng) -> CollisionType {
    *r.pick(&[CollisionType::None, CollisionType::Convex, CollisionType::Concave])
}
fn properties(r: &mut Rng) -> (Properties, Vec<(String, i32)>) {
    let mut m = HashMap::new();
    let mut l: Vec<(String, i32)> = vec![];
    for _ in 0..r.below(4) {
        let (k, v) = (text(r), int(r));
        l.retain(|(x, _)| *x != k);
        m.insert(k.clone(), Property::Integer(v));
        l.push((k, v));
    }
    l.sort();
    (Properties::new(m), l)
}
fn props_list(p: &Properties) -> Vec<(String, i32)> {
    let mut l: Vec<(String, i32)> = p
        .0
        .iter()
        .map(|(k, v)| (k.clone(), if let Property::Integer(i) = v { *i } else { i32::MIN + 7 }))
        .collect();
    l.sort();
    l
}

fn point(what: &str, d: &PointData, e: &str, c: &ComponentType, p: u8, l: &Vec<(String, i32)>) -> Result<(), String> {
    if et_name(&d.entity_type) != e {
        return Err(format!("{}: entity type {:?} instead of {:?}", what, d.entity_type, e));
    }
    if d.component_type != *c {
        return Err(format!("{}: component {:?} instead of {:?}", what, d.component_type, c));
    }
    if pat_no(&d.property_application_type) != p {
        return Err(format!("{}: properties applied as {:?}", what, d.property_application_type));
    }
    if props_list(&d.properties) != *l {
        return Err(format!("{}: properties {:?} instead of {:?}", what, d.properties, l));
    }
    Ok(())
}

fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// What the constructors make of their arguments.
fn constructors(ctx: &mut Ctx, r: &mut Rng) -> Res {
    // host definitions
    let (e, en) = entity_type(r);
    let c = component(r);
    let (p, pn) = pat(r);
    let (ps, pl) = properties(r);
    let (v, k) = (visual(r), collision(r));
    let name = text(r);
    point("PointData::new", &PointData::new(e.clone(), c.clone(), p, ps.clone()), &en, &c, pn, &pl)?;
    let b = BrushData::new(v, k);
    ensure!(b.visual_type == v && b.collision_type == k, "BrushData::new({:?}, {:?}) is {:?}", v, k, b);
    let d = Entity::point(name.clone(), e.clone(), c.clone(), p, ps.clone());
    ensure!(d.classname == name, "Entity::point({:?}) has the name {:?}", name, d.classname);
    match &d.data {
        EntityData::Point(d) => point("Entity::point", d, &en, &c, pn, &pl)?,
        _ => return Err("Entity::point made a brush entity".into()),
    }
    let d = Entity::brush(name.clone(), e.clone(), c.clone(), p, ps.clone(), v, k);
    ensure!(d.classname == name, "Entity::brush({:?}) has the name {:?}", name, d.classname);
    match &d.data {
        EntityData::Brush(d, b) => {
            point("Entity::brush", d, &en, &c, pn, &pl)?;
            ensure!(
                b.visual_type == v && b.collision_type == k,
                "Entity::brush({:?}, {:?}) has {:?}",
                v, k, b
            );
        }
        _ => return Err("Entity::brush made a point entity".into()),
    }
    let tex = text(r);
    let l = WorldspawnLayer::new(name.clone(), tex.clone(), e.clone(), c.clone(), v, k);
    let l2 = l.clone();
    for l in [&l, &l2] {
        ensure!(
            l.name == name && l.texture == tex && et_name(&l.entity_type) == en && l.component_type == c && l.visual_type == v && l.collision_type == k,
            "WorldspawnLayer::new({:?}, {:?}, {}, {:?}, {:?}, {:?}) is {:?}",
            name, tex, en, c, v, k, l
        );
    }
    // FGD definitions
    let (n, s, d) = (text(r), text(r), text(r));
    let i = int(r);
    let f = real(r);
    let data = PropertyData::Choices(vec![Choice::integer(&s, i), Choice::string(&n, &d)], i);
    let fp = forge::Property::new(&n, &s, &d, data.clone());
    for fp in [&fp, &fp.clone()] {
        ensure!(
            fp.name == n && fp.short_description == s && fp.long_description == d && fp.data == data,
            "Property::new({:?}, {:?}, {:?}, {:?}) is {:?}",
            n, s, d, data, fp
        );
    }
    let (ci, cf, cs) = (Choice::integer(&n, i), Choice::float(&n, f), Choice::string(&n, &s));
    ensure!(ci.name == n && ci.value == ChoiceData::Integer(i), "Choice::integer({:?}, {}) is {:?}", n, i, ci);
    ensure!(
        cf.name == n && matches!(cf.value, ChoiceData::Float(x) if x.to_bits() == f.to_bits()),
        "Choice::float({:?}, {}) is {:?}",
        n, f, cf
    );
    ensure!(cs.name == n && cs.value == ChoiceData::String(s.clone()), "Choice::string({:?}, {:?}) is {:?}", n, s, cs);
    ensure!(
        ci.value.to_string() == i.to_string() && cf.value.to_string() == f.to_string() && cs.value.to_string() == s,
        "the values of choices {:?}, {:?} and {:?} display as {:?}, {:?} and {:?}",
        i, f, s, ci.value.to_string(), cf.value.to_string(), cs.value.to_string()
    );
    let (ni, n2) = (int(r), text(r));
    ensure!(
        (ci == Choice::integer(&n2, ni)) == (n == n2 && i == ni),
        "choices {:?} and {:?} compare wrongly",
        ci, Choice::integer(&n2, ni)
    );
    ensure!(ci != cs && cs != cf && ci != cf, "choices of different kinds are equal");
    let ct = *r.pick(&[ClassType::BaseClass, ClassType::PointClass, ClassType::SolidClass]);
    let (lo, hi) = (vec3(r), vec3(r));
    let rgb = [real(r), real(r), real(r)];
    let col = Color::new(rgb[0], rgb[1], rgb[2]);
    ensure!(bitsc(&col) == rgb.map(|x| x.to_bits()), "Color::new gives {:?}, given {:?}", col, rgb);
    let fe = forge::Entity::new(
        ct,
        vec![Metadata::base(vec![n.clone(), s.clone()]), Metadata::size(lo, hi), Metadata::color(col)],
        &name,
        &d,
        vec![fp.clone(), forge::Property::new(&s, &d, &n, PropertyData::Integer(i))],
    );
    for fe in [&fe, &fe.clone()] {
        ensure!(
            Into::<i64>::into(fe.class_type) == Into::<i64>::into(ct) && fe.class_name == name && fe.description == d,
            "forge::Entity::new({:?}, {:?}, {:?}) is {:?}",
            ct, name, d, fe
        );
        ensure!(
            fe.properties.len() == 2 && fe.properties[0].name == n && fe.properties[1].name == s && fe.properties[1].data == PropertyData::Integer(i),
            "forge::Entity::new: properties {:?}",
            fe.properties
        );
        let ok = fe.metadata.len() == 3
            && matches!(&fe.metadata[0], Metadata::Base(b) if *b == vec![n.clone(), s.clone()])
            && matches!(&fe.metadata[1], Metadata::Size(a, b) if bits3(*a) == bits3(lo) && bits3(*b) == bits3(hi))
            && matches!(&fe.metadata[2], Metadata::Color(c) if bitsc(c) == bitsc(&col));
        ensure!(ok, "forge::Entity::new: metadata {:?}, given {:?} {:?} {:?} {:?} {:?}", fe.metadata, n, s, lo, hi, col);
    }
    let g = forge::GameData::new(name.clone(), vec![s.clone(), n.clone()], vec![fe.clone()]);
    for g in [&g, &g.clone()] {
        ensure!(
            g.name == name && g.includes == vec![s.clone(), n.clone()] && g.definitions.len() == 1 && g.definitions[0].class_name == name,
            "forge::GameData::new({:?}, {:?}) is {:?}",
            name, [&s, &n], g
        );
    }
    // the same class is the same entity, whatever else it holds
    let n2 = match r.below(6) {
        0 | 1 => name.clone(),
        2 => name.to_uppercase(),
        3 => format!("{} ", name),
        4 => name.trim().to_string(),
        _ => text(r),
    };
    let class = |r: &mut Rng, n: &str| {
        let many = if r.chance(1, 8) { 300 } else { 24 };
        let meta = (0..r.below(4)).map(|_| if r.chance(1, 2) { Metadata::base(vec![text(r)]) } else { Metadata::color(col) }).collect();
        let props = (0..r.below(many)).map(|_| forge::Property::new(&text(r), "", "", PropertyData::Integer(int(r)))).collect();
        forge::Entity::new(*r.pick(&[ClassType::BaseClass, ClassType::PointClass, ClassType::SolidClass]), meta, n, &text(r), props)
    };
    let (other, twin) = (class(r, &n2), class(r, &name));
    for (a, b) in [(&fe, &other), (&twin, &other), (&fe, &twin)] {
        let same = a.class_name == b.class_name;
        ensure!(
            (a == b) == same && (b == a) == same && (a != b) == !same,
            "FGD entities {:?} and {:?} compare wrongly",
            a, b
        );
        if same {
            ensure!(hash_of(a) == hash_of(b), "FGD entities of one name have different hashes: {:?} and {:?}", a, b);
            ctx.count("FGD classes equal by name", 1);
        }
        let set: HashSet<forge::Entity> = [a.clone(), b.clone(), a.clone()].into_iter().collect();
        ensure!(
            set.len() == if same { 1 } else { 2 } && set.contains(b) && set.contains(a),
            "a set of FGD entities {:?}, {:?} and {:?} holds {}",
            a.class_name, b.class_name, a.class_name, set.len()
        );
    }
    // scene values
    let (x, y, z, t) = (vec3(r), vec3(r), vec3(r), real(r));
    let uv = if r.chance(1, 2) { Some(Vector2::new(real(r), real(r))) } else { None };
    let vc = if r.chance(1, 2) { Some(col) } else { None };
    let vx = Vertex::new(x, y, (z, t), uv, vc);
    for vx in [&vx, &vx.clone()] {
        ensure!(
            bits3(vx.vertex) == bits3(x)
                && bits3(vx.normal) == bits3(y)
                && bits3(vx.tangent.0) == bits3(z)
                && vx.tangent.1.to_bits() == t.to_bits()
                && vx.uv.map(|u| (u.x().to_bits(), u.y().to_bits())) == uv.map(|u| (u.x().to_bits(), u.y().to_bits()))
                && vx.color.as_ref().map(bitsc) == vc.as_ref().map(bitsc),
            "Vertex::new({:?}, {:?}, {:?}, {:?}, {:?}) is {:?}",
            x, y, (z, t), uv, vc, vx
        );
    }
    let ms = MeshSurface::new(
        Some(name.clone()),
        vec![x, y],
        vec![y, z],
        vec![(z, t), (x, f)],
        uv.map(|u| vec![u; 2]),
        vc.map(|c| vec![c; 2]),
        vec![1, 0, 1],
    );
    for ms in [&ms, &ms.clone()] {
        ensure!(
            ms.texture.as_ref() == Some(&name)
                && ms.vertices.iter().map(|v| bits3(*v)).collect::<Vec<_>>() == vec![bits3(x), bits3(y)]
                && ms.normals.iter().map(|v| bits3(*v)).collect::<Vec<_>>() == vec![bits3(y), bits3(z)]
                && ms.tangents.iter().map(|v| (bits3(v.0), v.1.to_bits())).collect::<Vec<_>>() == vec![(bits3(z), t.to_bits()), (bits3(x), f.to_bits())]
                && ms.uvs.as_ref().map(|u| u.len()) == uv.map(|_| 2)
                && ms.colors.as_ref().map(|u| u.iter().map(bitsc).collect::<Vec<_>>()) == vc.map(|c| vec![bitsc(&c); 2])
                && ms.indices == vec![1, 0, 1],
            "MeshSurface::new is {:?}",
            ms
        );
    }
    let node = SceneTreeNode::entity(
        name.clone(),
        x,
        e.clone(),
        Some(s.clone()),
        p,
        ps.clone(),
        vec![
            SceneTreeNode::visual_geometry(y, VisualGeometry::None),
            SceneTreeNode::collision_geometry(z, CollisionGeometry::convex(vec![])),
        ],
    );
    ensure!(bits3(node.origin) == bits3(x), "SceneTreeNode::entity stands at {:?} instead of {:?}", node.origin, x);
    match &node.data {
        SceneTreeType::Actor(a, ch) => {
            ensure!(
                a.name == name && et_name(&a.entity_type) == en && a.component_class.as_ref() == Some(&s) && pat_no(&a.property_application_type) == pn && props_list(&a.properties) == pl,
                "SceneTreeNode::entity: actor {:?}",
                a
            );
            ensure!(
                ch.len() == 2
                    && bits3(ch[0].origin) == bits3(y)
                    && bits3(ch[1].origin) == bits3(z)
                    && matches!(ch[0].data, SceneTreeType::VisualGeometry(VisualGeometry::None))
                    && matches!(&ch[1].data, SceneTreeType::CollisionGeometry(CollisionGeometry::Convex(s)) if s.is_empty()),
                "SceneTreeNode::entity: children {:?}",
                ch
            );
        }
        _ => return Err("SceneTreeNode::entity made no actor".into()),
    }
    ensure!(
        matches!(CollisionGeometry::concave(vec![]), CollisionGeometry::Concave(s) if s.is_empty()),
        "CollisionGeometry::concave is not concave"
    );
    // colors and textures
    ensure!(bitsc(&col.clone()) == bitsc(&col), "a copied color differs");
    let c2 = Color::new(real(r), if r.chance(1, 2) { col.g } else { real(r) }, col.b);
    ensure!(
        (col == c2) == (col.r == c2.r && col.g == c2.g && col.b == c2.b),
        "colors {:?} and {:?} compare wrongly",
        col, c2
    );
    let (w, h) = (r.range(0, 70000) as u32, r.range(0, 70000) as u32);
    let tx = Texture::new(w, h);
    ensure!(
        tx.width == w && tx.height == h && tx.size().x() == w as f32 && tx.size().y() == h as f32,
        "Texture::new({}, {}) is {:?} of size {:?}",
        w, h, tx, tx.size()
    );
    ctx.count("constructors called", 24);
    ctx.fp(mix(hash_str(&format!("{:?}{:?}{:?}", name, pl, e)), mix(hash_str(&s), i as u64)));
    ctx.sample(|| format!("{:?}", fe));
    Ok(())
}

/// Exact lookups in long lists of similar names.
fn blacklist(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let names: Vec<String> = (0..r.range(0, 40))
        .map(|_| match r.below(3) {
            0 => text(r),
            1 => (*r.pick(&["clip", "CLIP", "cli", "clip ", "special/clip", "special\\clip", "skip", "clip1", "*water0", ""])).to_string(),
            _ => format!("t{}", r.below(30)),
        })
        .collect();
    let mut brush: Vec<String> = names.iter().filter(|_| r.chance(1, 3)).cloned().collect();
    let plane: Vec<String> = names.iter().filter(|_| r.chance(1, 3)).cloned().collect();
    if r.chance(1, 4) {
        let again = brush.clone();
        brush.extend(again);
    }
    let b = TextureBlacklist::new(brush.clone(), plane.clone());
    ensure!(b.brush == brush && b.plane == plane, "TextureBlacklist::new keeps {:?} and {:?}", b.brush, b.plane);
    let mut asked = names.clone();
    for n in &names {
        asked.push(n.to_uppercase());
        asked.push(format!("{}x", n));
        asked.push(n.chars().skip(1).collect());
        asked.push(n.trim().to_string());
    }
    for n in &asked {
        let (x, y) = (brush.contains(n), plane.contains(n));
        let (gx, gy) = (b.is_blacklisted_brush(n), b.is_blacklisted_plane(n));
        ensure!(
            gx == x && gy == y,
            "texture {:?}: listed for brushes {} and faces {}, reported as {} and {} (lists {:?} and {:?})",
            n, x, y, gx, gy, brush, plane
        );
        ctx.count("blacklist lookups", 1);
    }
    let d = TextureBlacklist::default();
    ensure!(d.brush.is_empty() && d.plane.is_empty(), "the default blacklist lists {:?}", d);
    ctx.fp(hash_str(&format!("{:?}{:?}", brush, plane)));
    Ok(())
}

/// Defaults, and a map built with nothing but them.
fn defaults(ctx: &mut Ctx, r: &mut Rng) -> Res {
    point("PointData::default", &PointData::default(), "placeholder", &ComponentType::None, 0, &vec![])?;
    let b = BrushData::default();
    ensure!(
        b.visual_type == VisualType::None && b.collision_type == CollisionType::None,
        "a default brush definition shows {:?} and collides {:?}",
        b.visual_type, b.collision_type
    );
    ensure!(Properties::default().0.is_empty(), "default properties are not empty");
    let c = Color::default();
    ensure!((c.r, c.g, c.b) == (1.0, 1.0, 1.0), "the default color is {:?}, not white", c);
    let c = Choice::default();
    ensure!(c.name.is_empty() && c.value == ChoiceData::Integer(0), "the default choice is {:?}", c);
    let p = forge::Property::default();
    ensure!(
        p.name.is_empty() && p.short_description.is_empty() && p.long_description.is_empty() && p.data == PropertyData::Integer(0),
        "the default FGD property is {:?}",
        p
    );
    let e = forge::Entity::default();
    ensure!(
        matches!(e.class_type, ClassType::BaseClass) && e.metadata.is_empty() && e.class_name.is_empty() && e.description.is_empty() && e.properties.is_empty(),
        "the default FGD entity is {:?}",
        e
    );
    let g = forge::GameData::default();
    ensure!(g.name.is_empty() && g.includes.is_empty() && g.definitions.is_empty(), "the default FGD is {:?}", g);
    let l = WorldspawnLayer::default();
    ensure!(
        l.name == "Worldspawn Layer"
            && l.texture.is_empty()
            && et_name(&l.entity_type) == "class "
            && l.component_type == ComponentType::None
            && l.visual_type == VisualType::Mesh
            && l.collision_type == CollisionType::Concave,
        "the default layer is {:?}",
        l
    );
    ctx.count("defaults compared", 9);
    // a map built with them
    let mut tex = TexGen { names: vec!["brick".into()], unique: false, counter: 0 };
    let mut m = GMap::default();
    let mut ws = GEntity::default();
    ws.set("classname", "worldspawn");
    let cfg = BrushCfg { max_tries: 200, ..BrushCfg::plain() };
    ws.brushes.push(gen_brush(r, [0.0; 3], &cfg, &mut tex));
    let mut wet = gen_brush(r, [600.0, 0.0, 0.0], &cfg, &mut tex);
    let liquid = *r.pick(&["*water0", "*slime0"]);
    wet.planes.iter_mut().for_each(|p| p.texture = liquid.into());
    ws.brushes.push(wet);
    m.entities.push(ws);
    let mut other = GEntity::default();
    let point_class = r.chance(1, 2);
    other.set("classname", "thing");
    other.brushes.push(gen_brush(r, [0.0, 600.0, 0.0], &cfg, &mut tex));
    m.entities.push(other);
    let text = render(r, &m, &Style::plain());
    ctx.inputs.clear();
    ctx.input("input.map", text.as_bytes());
    let f = sut::TmpFile::new(text.as_bytes(), "map");
    let def = |n: &str, point: bool| Entity {
        classname: n.into(),
        data: if point { EntityData::Point(PointData::default()) } else { EntityData::Brush(PointData::default(), BrushData::default()) },
    };
    let conf = Config::new(
        f.path(),
        TextureInfo(vec![("brick".to_string(), Texture::new(64, 64)), (liquid.to_string(), Texture::new(64, 64))].into_iter().collect()),
        TextureBlacklist::default(),
        forge::GameData::default(),
        GameData {
            entities: vec![def("worldspawn", false), def("thing", point_class)],
            worldspawn_layers: vec![WorldspawnLayer { texture: liquid.into(), ..WorldspawnLayer::default() }],
        },
    );
    let tree = match guarded(move || quarchitect::run(conf)) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => return Err(format!("a map built with defaults is rejected: {}", e).into()),
        Err(p) => return Err(format!("a map built with defaults panics: {}", p).into()),
    };
    ensure!(tree.len() == 3, "a map of two entities and one layer has {} nodes", tree.len());
    for (k, n) in tree.iter().enumerate() {
        let (a, ch, geo) = actor_parts(n).ok_or_else(|| Fail::Violation(format!("node {} is no actor", k)))?;
        let (name, et) = [("worldspawn", "placeholder"), ("Worldspawn Layer", "class "), ("thing", "placeholder")][k];
        ensure!(
            a.name == name && et_name(&a.entity_type) == et && a.component_class.is_none() && pat_no(&a.property_application_type) == 0 && a.properties.0.is_empty(),
            "built with defaults, node {} is {:?}",
            k, a
        );
        let vis = geo.iter().any(|g| matches!(g.data, SceneTreeType::VisualGeometry(VisualGeometry::Mesh(_))));
        let con = geo.iter().any(|g| matches!(g.data, SceneTreeType::CollisionGeometry(CollisionGeometry::Concave(_))));
        ensure!(
            ch.is_empty() && (k == 1) == vis && (k == 1) == con && (k == 1 || geo.is_empty()),
            "built with defaults, {} has {} geometry nodes (visual {}, concave {})",
            name, geo.len(), vis, con
        );
    }
    ctx.count("maps built with defaults", 1);
    ctx.fp(hash_str(&text));
    Ok(())
}

pub fn c26(ctx: &mut Ctx, r: &mut Rng) -> Res {
    ctx.inputs.clear();
    match r.below(8) {
        0 => defaults(ctx, r),
        1 | 2 => blacklist(ctx, r),
        _ => constructors(ctx, r),
    }
}
