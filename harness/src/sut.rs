//! The boundary to the code under test: building its configuration, calling
//! its public API, and reading its output back.
use quarchitect::game_data as gd;
use quarchitect::scene_tree::{SceneTreeNode, SceneTreeType, VisualGeometry, CollisionGeometry};
use quarchitect::{Color, Config, Texture, TextureBlacklist, TextureInfo, Vector3};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Debug, PartialEq)]
pub enum Et {
    Placeholder,
    Class(String),
    Prefab(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pat {
    Properties,
    Dictionary,
    Metadata,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Vis {
    None,
    Mesh,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Col {
    None,
    Convex,
    Concave,
}

#[derive(Clone, Debug)]
pub struct Def {
    pub classname: String,
    pub brush: Option<(Vis, Col)>,
    pub et: Et,
    pub comp: Option<String>,
    pub pat: Pat,
}

#[derive(Clone, Debug)]
pub struct Layer {
    pub name: String,
    pub texture: String,
    pub et: Et,
    pub comp: Option<String>,
    pub vis: Vis,
    pub col: Col,
}

#[derive(Clone, Debug)]
pub struct Forge {
    pub class_name: String,
    pub props: Vec<(String, gd::forge::PropertyData)>,
}

#[derive(Clone, Debug, Default)]
pub struct Cfg {
    pub tex: Vec<(String, (u32, u32))>,
    pub bl_brush: Vec<String>,
    pub bl_plane: Vec<String>,
    pub defs: Vec<Def>,
    pub layers: Vec<Layer>,
    pub forge: Vec<Forge>,
}

impl Cfg {
    pub fn tex_size(&self, k: &str) -> Option<(u32, u32)> {
        self.tex.iter().find(|(n, _)| n == k).map(|(_, s)| *s)
    }
    pub fn def(&self, classname: &str) -> Option<&Def> {
        self.defs.iter().find(|d| d.classname == classname)
    }
}

fn et(e: &Et) -> gd::EntityType {
    match e {
        Et::Placeholder => gd::EntityType::Placeholder,
        Et::Class(s) => gd::EntityType::Class(s.clone()),
        Et::Prefab(s) => gd::EntityType::Prefab(s.clone()),
    }
}
fn comp(c: &Option<String>) -> gd::ComponentType {
    match c {
        None => gd::ComponentType::None,
        Some(s) => gd::ComponentType::Script(s.clone()),
    }
}
fn pat(p: Pat) -> gd::PropertyApplicationType {
    match p {
        Pat::Properties => gd::PropertyApplicationType::Properties,
        Pat::Dictionary => gd::PropertyApplicationType::Dictionary,
        Pat::Metadata => gd::PropertyApplicationType::Metadata,
    }
}
fn vis(v: Vis) -> gd::VisualType {
    match v {
        Vis::None => gd::VisualType::None,
        Vis::Mesh => gd::VisualType::Mesh,
    }
}
fn col(c: Col) -> gd::CollisionType {
    match c {
        Col::None => gd::CollisionType::None,
        Col::Convex => gd::CollisionType::Convex,
        Col::Concave => gd::CollisionType::Concave,
    }
}

pub fn et_back(e: &gd::EntityType) -> Et {
    match e {
        gd::EntityType::Placeholder => Et::Placeholder,
        gd::EntityType::Class(s) => Et::Class(s.clone()),
        gd::EntityType::Prefab(s) => Et::Prefab(s.clone()),
    }
}
pub fn pat_back(p: &gd::PropertyApplicationType) -> Pat {
    match p {
        gd::PropertyApplicationType::Properties => Pat::Properties,
        gd::PropertyApplicationType::Dictionary => Pat::Dictionary,
        gd::PropertyApplicationType::Metadata => Pat::Metadata,
    }
}

pub fn forge_game_data(forge: &[Forge]) -> gd::forge::GameData {
    gd::forge::GameData::new(
        "qmon".into(),
        vec![],
        forge
            .iter()
            .map(|f| {
                gd::forge::Entity::new(
                    gd::forge::ClassType::PointClass,
                    vec![],
                    &f.class_name,
                    "d",
                    f.props
                        .iter()
                        .map(|(n, d)| gd::forge::Property::new(n, "s", "l", d.clone()))
                        .collect(),
                )
            })
            .collect(),
    )
}

pub fn build_config(path: &str, c: &Cfg) -> Config {
    let ti = TextureInfo(
        c.tex
            .iter()
            .map(|(n, (w, h))| (n.clone(), Texture::new(*w, *h)))
            .collect(),
    );
    let bl = TextureBlacklist::new(c.bl_brush.clone(), c.bl_plane.clone());
    let qd = gd::GameData {
        entities: c
            .defs
            .iter()
            .map(|d| match d.brush {
                None => gd::Entity::point(
                    d.classname.clone(),
                    et(&d.et),
                    comp(&d.comp),
                    pat(d.pat),
                    gd::Properties::default(),
                ),
                Some((v, k)) => gd::Entity::brush(
                    d.classname.clone(),
                    et(&d.et),
                    comp(&d.comp),
                    pat(d.pat),
                    gd::Properties::default(),
                    vis(v),
                    col(k),
                ),
            })
            .collect(),
        worldspawn_layers: c
            .layers
            .iter()
            .map(|l| {
                gd::WorldspawnLayer::new(
                    l.name.clone(),
                    l.texture.clone(),
                    et(&l.et),
                    comp(&l.comp),
                    vis(l.vis),
                    col(l.col),
                )
            })
            .collect(),
    };
    Config::new(path, ti, bl, forge_game_data(&c.forge), qd)
}

static TMP: AtomicU64 = AtomicU64::new(0);

pub fn tmp_dir() -> PathBuf {
    match std::env::var_os("QMON_TMP") {
        Some(p) => PathBuf::from(p),
        None => std::env::temp_dir(),
    }
}

pub fn tmp_path(ext: &str) -> PathBuf {
    let n = TMP.fetch_add(1, Ordering::Relaxed);
    tmp_dir().join(format!("q{}_{}.{}", std::process::id(), n, ext))
}

pub struct TmpFile(pub PathBuf);
impl TmpFile {
    pub fn new(bytes: &[u8], ext: &str) -> TmpFile {
        let p = tmp_path(ext);
        std::fs::write(&p, bytes).expect("harness: cannot write temporary file");
        TmpFile(p)
    }
    pub fn path(&self) -> &str {
        self.0.to_str().unwrap()
    }
}
impl Drop for TmpFile {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

/// Runs f; a panic becomes Err(message with location).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

#[derive(Debug)]
pub enum RunOut {
    Tree(Vec<SceneTreeNode>),
    Error(String),
    Panic(String),
}

pub fn run_path(path: &str, c: &Cfg) -> RunOut {
    match guarded(|| quarchitect::run(build_config(path, c)).map_err(|e| e.to_string())) {
        Ok(Ok(t)) => RunOut::Tree(t),
        Ok(Err(e)) => RunOut::Error(e),
        Err(p) => RunOut::Panic(p),
    }
}

pub fn run_bytes(bytes: &[u8], c: &Cfg) -> RunOut {
    let f = TmpFile::new(bytes, "map");
    run_path(f.path(), c)
}

/// Well-formed input: anything but a tree is a finding.
pub fn run_ok(text: &str, c: &Cfg) -> Result<Vec<SceneTreeNode>, String> {
    match run_bytes(text.as_bytes(), c) {
        RunOut::Tree(t) => Ok(t),
        RunOut::Error(e) => Err(format!("well-formed map was rejected: {}", e)),
        RunOut::Panic(p) => Err(format!("well-formed map made the build panic: {}", p)),
    }
}

// ------------------------------------------------------- canonical dumps

pub fn v3(v: Vector3) -> [f64; 3] {
    [v.x() as f64, v.y() as f64, v.z() as f64]
}

fn dv(o: &mut String, v: Vector3) {
    let _ = write!(o, "<{:?} {:?} {:?}>", v.x(), v.y(), v.z());
}

fn dc(o: &mut String, c: &Color) {
    let _ = write!(o, "c<{:?} {:?} {:?}>", c.r, c.g, c.b);
}

pub fn dump_property(p: &gd::Property) -> String {
    let mut o = String::new();
    match p {
        gd::Property::Integer(i) => {
            let _ = write!(o, "Integer({})", i);
        }
        gd::Property::Float(f) => {
            let _ = write!(o, "Float({:?})", f);
        }
        gd::Property::Vector3(v) => {
            o.push_str("Vector3");
            dv(&mut o, *v)
        }
        gd::Property::String(s) => {
            let _ = write!(o, "String({:?})", s);
        }
        gd::Property::Color(c) => {
            o.push_str("Color");
            dc(&mut o, c)
        }
        gd::Property::Choices(i) => {
            let _ = write!(o, "Choices({})", i);
        }
        gd::Property::Flags(i) => {
            let _ = write!(o, "Flags({})", i);
        }
        gd::Property::TargetSource => o.push_str("TargetSource"),
        gd::Property::TargetDestination => o.push_str("TargetDestination"),
    }
    o
}

/// Deterministic text of a whole tree (property maps sorted by key), bit-exact
/// in every float.
pub fn dump_tree(t: &[SceneTreeNode]) -> String {
    let mut o = String::new();
    for n in t {
        dump_node(&mut o, n, 0);
    }
    o
}

pub fn dump_node(o: &mut String, n: &SceneTreeNode, d: usize) {
    let ind = "  ".repeat(d);
    o.push_str(&ind);
    o.push_str("origin ");
    dv(o, n.origin);
    match &n.data {
        SceneTreeType::Actor(a, ch) => {
            let _ = writeln!(
                o,
                " actor {:?} {:?} {:?} {:?}",
                a.name, a.entity_type, a.component_class, a.property_application_type
            );
            let mut ks: Vec<_> = a.properties.0.iter().collect();
            ks.sort_by(|x, y| x.0.cmp(y.0));
            for (k, v) in ks {
                let _ = writeln!(o, "{}  prop {:?} {}", ind, k, dump_property(v));
            }
            for c in ch {
                dump_node(o, c, d + 1);
            }
        }
        SceneTreeType::VisualGeometry(v) => {
            o.push_str(" visual\n");
            if let VisualGeometry::Mesh(m) = v {
                for s in &m.surfaces {
                    let _ = writeln!(o, "{}  surface {:?}", ind, s.texture);
                    for i in 0..s.vertices.len() {
                        o.push_str(&ind);
                        o.push_str("   v ");
                        dv(o, s.vertices[i]);
                        if let Some(n) = s.normals.get(i) {
                            o.push_str(" n ");
                            dv(o, *n);
                        }
                        if let Some((t, h)) = s.tangents.get(i) {
                            o.push_str(" t ");
                            dv(o, *t);
                            let _ = write!(o, " {:?}", h);
                        }
                        if let Some(u) = s.uvs.as_ref().and_then(|u| u.get(i)) {
                            let _ = write!(o, " uv {:?} {:?}", u.x(), u.y());
                        }
                        if let Some(c) = s.colors.as_ref().and_then(|u| u.get(i)) {
                            o.push(' ');
                            dc(o, c);
                        }
                        o.push('\n');
                    }
                    let _ = writeln!(o, "{}   idx {:?}", ind, s.indices);
                }
            } else {
                o.push_str("  none\n");
            }
        }
        SceneTreeType::CollisionGeometry(c) => {
            o.push_str(" collision\n");
            match c {
                CollisionGeometry::None => o.push_str("  none\n"),
                CollisionGeometry::Convex(v) => {
                    for s in v {
                        let _ = write!(o, "{}  convex center ", ind);
                        dv(o, s.center);
                        o.push('\n');
                        for p in &s.points {
                            o.push_str(&ind);
                            o.push_str("   p ");
                            dv(o, *p);
                            o.push('\n');
                        }
                    }
                }
                CollisionGeometry::Concave(v) => {
                    for s in v {
                        let _ = write!(o, "{}  concave center ", ind);
                        dv(o, s.center);
                        o.push('\n');
                        for p in &s.vertices {
                            o.push_str(&ind);
                            o.push_str("   p ");
                            dv(o, *p);
                            o.push('\n');
                        }
                        let _ = writeln!(o, "{}   idx {:?}", ind, s.indices);
                    }
                }
            }
        }
    }
}
