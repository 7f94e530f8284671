//! The smallest workload that still reaches every stage of the code under
//! test: for interpreters that run ten thousand times slower than hardware.
use crate::rng::Rng;
use crate::sut::{self, Cfg, Col, Def, Et, Forge, Layer, Pat, RunOut, TmpFile, Vis};
use quarchitect::game_data::forge::PropertyData;
use quarchitect::{Color, Vector3};

fn cube(x: i64, s: i64, tex: &[&str], valve: bool) -> String {
    let f = [
        ([-1, 0, 0], [[0, 0, 0], [0, 1, 0], [0, 0, 1]]),
        ([1, 0, 0], [[1, 0, 0], [1, 0, 1], [1, 1, 0]]),
        ([0, -1, 0], [[0, 0, 0], [0, 0, 1], [1, 0, 0]]),
        ([0, 1, 0], [[0, 1, 0], [1, 1, 0], [0, 1, 1]]),
        ([0, 0, -1], [[0, 0, 0], [1, 0, 0], [0, 1, 0]]),
        ([0, 0, 1], [[0, 0, 1], [0, 1, 1], [1, 0, 1]]),
    ];
    let mut o = String::from("{\n");
    for (i, (_, p)) in f.iter().enumerate() {
        for q in p {
            o.push_str(&format!("( {} {} {} ) ", x + s * q[0], s * q[1], s * q[2]));
        }
        o.push_str(tex[i % tex.len()]);
        o.push_str(if valve { " [ 1 0 0 4 ] [ 0 -1 0 8 ] 0 1 1\n" } else { " 0 8 30 1 0.5 1 2 3\n" });
    }
    o.push_str("}\n");
    o
}

pub fn map(part: u64) -> String {
    let mut o = String::from("// Game: x\n{\n\"classname\" \"worldspawn\"\n");
    o.push_str(&cube(0, 16, &["brick", "sky"], part % 2 == 0));
    if part % 2 == 1 {
        o.push_str(&cube(64, 8, &["*water0"], false));
    }
    o.push_str("}\n{\n\"classname\" \"thing\"\n\"_phong\" \"1\"\n\"origin\" \"1 2 3\"\n\"_tb_group\" \"7\"\n\"k\" \"1 2 3\"\n\"n\" \"5\"\n");
    o.push_str(&cube(128, 32, &["BRICK"], true));
    o.push_str("}\n{\n\"classname\" \"func_group\"\n\"_tb_id\" \"7\"\n}\n");
    o
}

fn cfg(part: u64) -> Cfg {
    let mut c = Cfg::default();
    c.tex.push(("brick".into(), (64, 32)));
    c.bl_plane.push("sky".into());
    for n in ["worldspawn", "thing"] {
        c.defs.push(Def {
            classname: n.into(),
            brush: Some((Vis::Mesh, if part % 2 == 0 { Col::Convex } else { Col::Concave })),
            et: Et::Class("x".into()),
            comp: None,
            pat: Pat::Properties,
        });
        c.forge.push(Forge {
            class_name: n.into(),
            props: vec![
                ("k".into(), PropertyData::Color(Color::new(0., 0., 1.))),
                ("n".into(), PropertyData::Integer(1)),
                ("v".into(), PropertyData::Vector3(Vector3::new(1., 2., 3.))),
            ],
        });
    }
    c.layers.push(Layer { name: "w".into(), texture: "*water0".into(), et: Et::Placeholder, comp: None, vis: Vis::Mesh, col: Col::Convex });
    c
}

pub fn wad(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut b = b"WAD3".to_vec();
    b.extend_from_slice(&(n as u32).to_le_bytes());
    b.extend_from_slice(&12u32.to_le_bytes());
    let size = 40 + 4 + 1 + 2 + 768;
    for i in 0..n {
        b.extend_from_slice(&((12 + 32 * n + size * i) as u32).to_le_bytes());
        b.extend_from_slice(&[0; 8]);
        b.extend_from_slice(&[b'C', 0, 0, 0]);
        b.extend_from_slice(format!("t{:015}", i).as_bytes());
    }
    for i in 0..n {
        b.extend_from_slice(format!("T{:015}", i).as_bytes());
        for x in [2u32, 2, 40, 44, 45, 45] {
            b.extend_from_slice(&x.to_le_bytes());
        }
        for _ in 0..5 + 2 + 768 {
            b.push(r.below(256) as u8);
        }
    }
    b
}

/// Returns a line of observations, or what went wrong.
pub fn run(part: u64, seed: u64) -> Result<String, String> {
    let mut r = Rng::new(seed ^ part);
    match part % 4 {
        0 | 1 => match sut::run_bytes(map(part).as_bytes(), &cfg(part)) {
            RunOut::Tree(t) => Ok(format!("map built, {} bytes of tree", sut::dump_tree(&t).len())),
            RunOut::Error(e) => Err(e),
            RunOut::Panic(e) => Err(e),
        },
        2 => {
            let b = wad(&mut r, 3);
            let f = TmpFile::new(&b, "wad");
            let t = quarchitect::wad::read_textures(f.path(), None, 4)?;
            let n = t.len();
            for t in t {
                t.into_rgb(None)?;
            }
            Ok(format!("{} textures", n))
        }
        _ => {
            let g = sut::forge_game_data(&cfg(1).forge);
            let f = TmpFile::new(b"", "fgd");
            g.save(f.path().to_string()).map_err(|e| e.to_string())?;
            let (a, b) = (TmpFile::new(b"{\n}\n// x\n", "map"), TmpFile::new(b"{\n}\n\"a\" \"b\"\n", "map"));
            quarchitect::run_diff(a.path(), b.path()).map_err(|e| e.to_string())?;
            Ok("definitions saved, maps compared".into())
        }
    }
}
