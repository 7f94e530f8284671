//! Oracles for game definition files, map differences and I/O faults.
use crate::ensure;
use crate::fgd::{self, Tok};
use crate::fw::*;
use crate::io::{self, Op, Plan};
use crate::mapgen::*;
use crate::rng::{hash_bytes, hash_str, mix, Rng};
use crate::sut::{self, RunOut, TmpFile};
use crate::vocab;
use crate::world::{self, WOpts};
use quarchitect::game_data::forge::{Choice, ChoiceData, ClassType, Entity, GameData, Metadata, Property, PropertyData};
use quarchitect::wad;
use quarchitect::{Color, Vector3};

// ================================================================= C16

fn ident(r: &mut Rng) -> String {
    if r.chance(1, 8) {
        let n = if r.chance(1, 10) { r.range(30, 400) } else { r.range(1, 12) };
        let abc: Vec<char> = ('a'..='z').chain('A'..='Z').chain("_".chars()).collect();
        let more: Vec<char> = abc.iter().copied().chain('0'..='9').collect();
        return (0..n).map(|i| if i == 0 { *r.pick(&abc) } else { *r.pick(&more) }).collect();
    }
    (*r.pick(&[
        "func_door", "light", "_phong_angle", "a", "X9", "info_player_start", "target", "worldspawn", "spawnflags", "angle2", "b-c", "d.e",
    ]))
    .to_string()
}

/// how many: mostly few, at times very many
fn many(r: &mut Rng, few: i64, lots: i64) -> usize {
    if r.chance(1, 60) {
        r.range(few, lots) as usize
    } else {
        r.range(0, few) as usize
    }
}

fn text(r: &mut Rng) -> String {
    if r.chance(1, 10) {
        let n = if r.chance(1, 30) { r.range(1000, 70000) } else { r.range(1, 120) };
        let abc: Vec<char> = "abz AZ09.,:;!?()[]{}=@#/\\'+-*&%$~`|<>^_\t\u{e9}\u{df}\u{130}\u{4e16}\u{1f600}\u{a0}\u{301}".chars().collect();
        return (0..n).map(|_| *r.pick(&abc)).collect();
    }
    (*r.pick(&[
        "", "A door", "x", "1", "with : colon", "[bracket]", "// not a comment", "@PointClass = x", "caf\u{e9} \u{4e16}", "tab\there", "a = b",
        "(paren, comma)", "'quoted'", "trailing ", " leading", "{}", "%d %s {} {0}", "back\\slash",
    ]))
    .to_string()
}

fn num(r: &mut Rng) -> f32 {
    match r.below(6) {
        0 => r.range(-4096, 4096) as f32,
        1 => r.fr(-1.0, 1.0) as f32,
        2 => r.fr(-1e5, 1e5) as f32,
        3 => *r.pick(&[0.0f32, 1e-3, 0.1, 16777216.0, -0.5, 1e10, 3.4e-5, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, -1e-30, 33554436.0, 1e21, 0.33333334, 9999999.0]),
        _ => r.range(-64, 64) as f32 / 8.0,
    }
}

fn data(r: &mut Rng) -> PropertyData {
    match r.below(9) {
        0 if r.chance(1, 2) => PropertyData::Integer(r.next() as i32),
        0 => PropertyData::Integer(*r.pick(&[0, 1, -1, i32::MAX, i32::MIN, 12345])),
        1 => PropertyData::Float(num(r)),
        2 => PropertyData::Vector3(Vector3::new(num(r), num(r), num(r))),
        3 => PropertyData::String(text(r)),
        4 => PropertyData::Color(Color::new(r.f() as f32, r.f() as f32, *r.pick(&[0.0f32, 1.0, 0.5]))),
        5 => {
            let c: Vec<Choice> = (0..many(r, 6, 400).max(1))
                .map(|_| {
                    let n = text(r);
                    match r.below(4) {
                        0 => Choice::string(&n, &text(r)),
                        1 => Choice::integer(&n, r.range(-9, 99) as i32),
                        2 if r.chance(1, 3) => Choice::integer(&n, r.next() as i32),
                        _ => Choice::float(&n, num(r)),
                    }
                })
                .collect();
            let k = r.below(c.len()) as i32;
            PropertyData::Choices(c, k)
        }
        6 => {
            let n = if r.chance(1, 8) { 32 } else { r.range(0, 32) as usize };
            let m = ((1i64 << n) - 1) as i32;
            // (bits without a flag of their own, the sign among them, are free)
            let d = if r.chance(1, 3) { r.next() as i32 } else { (r.next() as i32) & m };
            PropertyData::Flags((0..n).map(|_| text(r)).collect(), d)
        }
        7 => PropertyData::TargetSource,
        _ => PropertyData::TargetDestination,
    }
}

fn chan(c: f32) -> i64 {
    (c * 255.0) as i64
}

fn tok_num(t: &Tok) -> Option<f32> {
    match t {
        Tok::Word(w) => w.parse().ok(),
        _ => None,
    }
}

fn nums(s: &str) -> Vec<f32> {
    s.split(' ').filter_map(|x| x.parse().ok()).collect()
}

fn check_prop(m: &Property, p: &fgd::PProp) -> Result<(), String> {
    let bad = |w: &str| Err(format!("property {:?} ({:?}): {} (read back as {:?})", m.name, m.data, w, p));
    if p.name != m.name {
        return bad("name");
    }
    let kind = match m.data {
        PropertyData::Integer(_) => "integer",
        PropertyData::Float(_) => "float",
        PropertyData::Vector3(_) | PropertyData::String(_) => "string",
        PropertyData::Color(_) => "color255",
        PropertyData::Choices(..) => "choices",
        PropertyData::Flags(..) => "flags",
        PropertyData::TargetSource => "target_source",
        PropertyData::TargetDestination => "target_destination",
    };
    if p.kind != kind {
        return bad("type");
    }
    if !matches!(m.data, PropertyData::Flags(..)) && p.short.as_deref() != Some(&m.short_description) {
        return bad("short description");
    }
    if !matches!(m.data, PropertyData::Flags(..) | PropertyData::Choices(..)) && p.long.as_deref() != Some(&m.long_description) {
        return bad("long description");
    }
    match &m.data {
        PropertyData::Integer(i) => match &p.default {
            Some(Tok::Word(w)) if w.parse() == Ok(*i) => (),
            _ => return bad("default"),
        },
        PropertyData::Float(f) => match &p.default {
            Some(t) if tok_num(t) == Some(*f) => (),
            _ => return bad("default"),
        },
        PropertyData::Vector3(v) => match &p.default {
            Some(Tok::Str(s)) if nums(s) == [v.x(), v.y(), v.z()] && s.split(' ').count() == 3 => (),
            _ => return bad("default"),
        },
        PropertyData::String(s) => {
            if p.default != Some(Tok::Str(s.clone())) {
                return bad("default");
            }
        }
        PropertyData::Color(c) => {
            let want = format!("{} {} {}", chan(c.r), chan(c.g), chan(c.b));
            if p.default != Some(Tok::Str(want)) {
                return bad("default");
            }
        }
        PropertyData::Choices(cs, d) => {
            if cs.len() != p.choices.len() {
                return bad("number of choices");
            }
            for (c, (v, l)) in cs.iter().zip(&p.choices) {
                let shown = match v {
                    Tok::Str(s) | Tok::Word(s) => s.clone(),
                    Tok::Sym(_) => return bad("choice value"),
                };
                let is_word = matches!(v, Tok::Word(_));
                let ok = shown == c.value.to_string();
                let want_word = !matches!(c.value, ChoiceData::String(_));
                if !ok || *l != c.name || is_word != want_word {
                    return bad("choice");
                }
            }
            if p.default != Some(Tok::Str(cs[*d as usize].value.to_string())) {
                return bad("default choice");
            }
        }
        PropertyData::Flags(f, d) => {
            if f.len() != p.flags.len() {
                return bad("number of flags");
            }
            for (i, (n, (bit, l, on))) in f.iter().zip(&p.flags).enumerate() {
                // (the last one is the sign, as a 32-bit integer and in the map)
                if !(*bit == 1i64 << i || (i == 31 && *bit == -(1i64 << i))) || n != l || *on != ((*d as i64) >> i) & 1 {
                    return bad("flag");
                }
            }
        }
        PropertyData::TargetSource | PropertyData::TargetDestination => {
            if p.default.is_some() {
                return bad("default of a target");
            }
        }
    }
    Ok(())
}

fn check_entity(m: &Entity, p: &fgd::PClass) -> Result<(), String> {
    let kind = match m.class_type {
        ClassType::BaseClass => "@BaseClass",
        ClassType::PointClass => "@PointClass",
        ClassType::SolidClass => "@SolidClass",
    };
    let bad = |w: &str| Err(format!("class {:?}: {} (read back as {:?})", m.class_name, w, p));
    if p.kind != kind {
        return bad("kind");
    }
    if p.name != m.class_name {
        return bad("name");
    }
    if p.description != m.description {
        return bad("description");
    }
    if p.meta.len() != m.metadata.len() {
        return bad("metadata");
    }
    for (a, (n, args)) in m.metadata.iter().zip(&p.meta) {
        match a {
            Metadata::Base(b) => {
                let mut want = vec![];
                for (i, x) in b.iter().enumerate() {
                    if i > 0 {
                        want.push(Tok::Sym(','));
                    }
                    want.push(Tok::Word(x.clone()));
                }
                if n != "base" || *args != want {
                    return bad("base classes");
                }
            }
            Metadata::Color(c) => {
                let want: Vec<Tok> = [c.r, c.g, c.b].iter().map(|x| Tok::Word(chan(*x).to_string())).collect();
                if n != "color" || *args != want {
                    return bad("color");
                }
            }
            Metadata::Size(lo, hi) => {
                let v: Vec<f32> = args.iter().filter_map(tok_num).collect();
                let commas = args.iter().filter(|t| **t == Tok::Sym(',')).count();
                if n != "size" || v != [lo.x(), lo.y(), lo.z(), hi.x(), hi.y(), hi.z()] || commas != 5 || args.len() != 11 {
                    return bad("size");
                }
            }
        }
    }
    if p.props.len() != m.properties.len() {
        return bad("number of properties");
    }
    for (a, b) in m.properties.iter().zip(&p.props) {
        check_prop(a, b)?;
    }
    Ok(())
}

pub fn rand_game_data(r: &mut Rng) -> GameData {
    let n = many(r, 5, 700);
    let (props, metas) = if n > 50 { (3, 3) } else { (8, 3) };
    let mut defs: Vec<Entity> = (0..n)
        .map(|_| {
            let meta = (0..many(r, metas, 40))
                .map(|_| match r.below(3) {
                    0 => Metadata::Base((0..many(r, 3, 300).max(1)).map(|_| ident(r)).collect()),
                    1 => Metadata::Color(Color::new(r.f() as f32, r.f() as f32, r.f() as f32)),
                    _ => Metadata::Size(Vector3::new(num(r), num(r), num(r)), Vector3::new(num(r), num(r), num(r))),
                })
                .collect();
            let mut props: Vec<Property> = (0..many(r, props, 400)).map(|_| Property::new(&ident(r), &text(r), &text(r), data(r))).collect();
            if !props.is_empty() && r.chance(1, 12) {
                // the same one again, right behind or further on
                let k = r.below(props.len());
                let at = r.range(k as i64, props.len() as i64) as usize;
                props.insert(at, props[k].clone());
            }
            let ct = *r.pick(&[ClassType::BaseClass, ClassType::PointClass, ClassType::SolidClass]);
            Entity::new(ct, meta, &ident(r), &text(r), props)
        })
        .collect();
    if !defs.is_empty() && r.chance(1, 12) {
        let k = r.below(defs.len());
        let at = r.range(k as i64, defs.len() as i64) as usize;
        defs.insert(at, defs[k].clone());
    }
    let inc = (0..many(r, 3, 300)).map(|_| (*r.pick(&["base.fgd", "a b.fgd", "x/y.fgd", "\u{e9}.fgd"])).to_string()).collect();
    GameData::new(text(r), inc, defs)
}

pub fn c16(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let g = rand_game_data(r);
    let s = sut::guarded(|| g.to_string()).map_err(|p| format!("writing the definitions panics: {}", p))?;
    ctx.inputs.clear();
    ctx.input("game_data.txt", format!("{:#?}", g).as_bytes());
    ctx.input("out.fgd", s.as_bytes());
    ctx.sample(|| s.clone());
    let p = fgd::parse(&s).map_err(|e| format!("the generated file cannot be read back: {}", e))?;
    ensure!(p.comments.first().map(|c| c.trim()) == Some(g.name.trim()), "name {:?}, read back {:?}", g.name, p.comments);
    ensure!(p.comments.len() == 1, "comments read back: {:?}", p.comments);
    ensure!(p.includes == g.includes, "includes {:?}, read back {:?}", g.includes, p.includes);
    ensure!(p.classes.len() == g.definitions.len(), "{} classes, read back {}", g.definitions.len(), p.classes.len());
    for (m, p) in g.definitions.iter().zip(&p.classes) {
        check_entity(m, p)?;
        ctx.count("classes", 1);
        ctx.count("properties", m.properties.len() as u64);
        for q in &m.properties {
            ctx.fp(hash_str(&format!("{:?}", q.data)));
        }
    }
    // saving
    let old_len = *r.pick(&[0usize, 10, 100_000]);
    let dir = sut::tmp_path("dir");
    std::fs::create_dir_all(&dir).expect("harness: scratch");
    let path = dir.join("game data.fgd");
    let existed = r.chance(1, 2);
    if existed {
        std::fs::write(&path, vec![b'#'; old_len]).expect("harness: scratch");
    }
    let ps = path.to_string_lossy().into_owned();
    let out = sut::guarded(|| g.save(ps.clone()));
    let now = std::fs::read(&path);
    let names: Vec<String> = std::fs::read_dir(&dir).map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
    let blocked = sut::guarded(|| g.save(dir.to_string_lossy().into_owned()));
    let missing = sut::guarded(|| g.save(dir.join("no/such/dir.fgd").to_string_lossy().into_owned()));
    let nul = sut::guarded(|| g.save("a\0b".into()));
    let _ = std::fs::remove_dir_all(&dir);
    match out {
        Ok(Ok(())) => (),
        Ok(Err(e)) => return Err(format!("saving to a writable path fails: {}", e).into()),
        Err(p) => return Err(format!("saving panics: {}", p).into()),
    }
    match now {
        Ok(b) => ensure!(
            b == s.as_bytes(),
            "the saved file (over {} earlier bytes) has {} bytes, the text has {}",
            if existed { old_len } else { 0 }, b.len(), s.len()
        ),
        Err(e) => return Err(format!("nothing was saved: {}", e).into()),
    }
    ensure!(names == ["game data.fgd"], "saving leaves {:?} in the folder", names);
    ctx.count(if existed { "saved over a file" } else { "saved new" }, 1);
    for (w, o) in [("a folder", blocked), ("a missing folder", missing), ("an impossible name", nul)] {
        match o {
            Ok(Err(_)) => ctx.count("refused saves", 1),
            Ok(Ok(())) => return Err(format!("saving to {} reports success", w).into()),
            Err(p) => return Err(format!("saving to {} panics: {}", w, p).into()),
        }
    }
    Ok(())
}

// ================================================================= C22

#[derive(Clone, Debug, PartialEq)]
enum Token {
    Comment(String),
    OpenBrace,
    CloseBrace,
    Property(Prop),
    BrushPlane(String),
    Unrecognized(String),
}
#[derive(Clone, Debug, PartialEq)]
struct Prop {
    key: String,
    value: String,
}
impl Prop {
    fn dbg(&self) -> String {
        format!("{{ key: {:?}, value: {:?} }}", self.key, self.value)
    }
}

fn tokens(lines: &[String]) -> Vec<Token> {
    lines
        .iter()
        .map(|l| match l.chars().next() {
            Some('/') => Token::Comment(l.clone()),
            Some('{') => Token::OpenBrace,
            Some('}') => Token::CloseBrace,
            Some('(') => Token::BrushPlane(l.clone()),
            Some('"') => {
                let c: Vec<&str> = l.split('"').collect();
                if c.len() >= 4 {
                    Token::Property(Prop { key: c[1].into(), value: c[3].into() })
                } else {
                    Token::Unrecognized(l.clone())
                }
            }
            _ => Token::Unrecognized(l.clone()),
        })
        .collect()
}

/// One printed token with layout removed, so only its content counts.
fn squash(s: &str) -> String {
    let mut o = String::new();
    let mut quoted = false;
    let mut esc = false;
    for c in s.chars() {
        if quoted {
            o.push(c);
            if esc {
                esc = false;
            } else if c == '\\' {
                esc = true;
            } else if c == '"' {
                quoted = false;
            }
        } else if c == '"' {
            quoted = true;
            o.push(c);
        } else if !c.is_whitespace() && c != ',' {
            o.push(c);
        }
    }
    o
}

fn token_key(t: &Token) -> String {
    match t {
        Token::Property(p) => squash(&format!("Property(Property{})", p.dbg())),
        t => squash(&format!("{:?}", t)),
    }
}

/// The lists named `added` and `removed` of the printed difference.
fn parse_diff(out: &str) -> Result<(Vec<String>, Vec<String>), String> {
    let start = out.find("Diff {").ok_or("no difference was printed")?;
    let body = &out[start..];
    let list = |name: &str| -> Result<Vec<String>, String> {
        let pat = format!("{}: [", name);
        // field names are printed at the first indentation level
        let at = body
            .match_indices(&pat)
            .map(|m| m.0)
            .find(|i| body[..*i].rsplit('\n').next().map_or(false, |l| l == "    ") || body[..*i].ends_with("Diff { ") || body[..*i].ends_with("], "))
            .ok_or_else(|| format!("no list {}", name))?;
        let mut items = vec![];
        let mut cur = String::new();
        let (mut depth, mut quoted, mut esc) = (0i32, false, false);
        for c in body[at + pat.len()..].chars() {
            if quoted {
                cur.push(c);
                if esc {
                    esc = false;
                } else if c == '\\' {
                    esc = true;
                } else if c == '"' {
                    quoted = false;
                }
                continue;
            }
            match c {
                '"' => {
                    quoted = true;
                    cur.push(c);
                }
                '(' | '{' | '[' => {
                    depth += 1;
                    cur.push(c);
                }
                ']' if depth == 0 => {
                    if !cur.trim().is_empty() {
                        items.push(squash(&cur));
                    }
                    return Ok(items);
                }
                ')' | '}' | ']' => {
                    depth -= 1;
                    cur.push(c);
                }
                ',' if depth == 0 => {
                    if !cur.trim().is_empty() {
                        items.push(squash(&cur));
                    }
                    cur.clear();
                }
                c => cur.push(c),
            }
        }
        Err("unterminated list".into())
    };
    Ok((list("added")?, list("removed")?))
}

fn lcs(a: &[u32], b: &[u32]) -> usize {
    let mut row = vec![0usize; b.len() + 1];
    for x in a {
        let mut diag = 0;
        for (j, y) in b.iter().enumerate() {
            let up = row[j + 1];
            row[j + 1] = if x == y { diag + 1 } else { up.max(row[j]) };
            diag = up;
        }
    }
    row[b.len()]
}

/// Can a become b by deleting exactly `del` (in order) and inserting exactly `ins` (in order)?
fn transforms(a: &[u32], b: &[u32], del: &[u32], ins: &[u32]) -> bool {
    if a.len() - del.len() != b.len() - ins.len() {
        return false;
    }
    let mut seen = std::collections::HashSet::new();
    let mut todo = vec![(0usize, 0usize, 0usize)];
    while let Some((i, j, d)) = todo.pop() {
        if !seen.insert((i, j, d)) {
            continue;
        }
        let n = j - (i - d); // inserted so far
        if i == a.len() && j == b.len() {
            return d == del.len() && n == ins.len();
        }
        if i < a.len() && j < b.len() && a[i] == b[j] {
            todo.push((i + 1, j + 1, d));
        }
        if i < a.len() && d < del.len() && del[d] == a[i] {
            todo.push((i + 1, j, d + 1));
        }
        if j < b.len() && n < ins.len() && ins[n] == b[j] {
            todo.push((i, j + 1, d));
        }
    }
    false
}

pub fn diff_lines(r: &mut Rng) -> (Vec<String>, Vec<String>) {
    let small = r.chance(1, 2);
    let mut pool: Vec<String> = [
        "{", "}", "// c", "// Game: Q", "\"classname\" \"worldspawn\"", "\"classname\" \"light\"", "\"origin\" \"0 0 0\"", "\"k\" \"\"",
        "\"k\" \"a, b] ) }\"", "\"bad\"", "( 0 0 0 ) ( 0 1 0 ) ( 1 0 0 ) a 0 0 0 1 1", "( 0 0 0 ) ( 0 1 0 ) ( 1 0 0 ) b 0 0 0 1 1", "", "junk \\ \u{e9}",
        "/", "  indented", "added: [", "\"removed: [\" \"],\"", "\"k\" \" \"", "\"k \" \"\"", "\"K\" \"\"", "// c ", "// C",
        "\"origin\" \"0 0 0 \"", "\"origin\" \"0  0 0\"", "\"classname\" \" light\"", "\"bad\" ", "  indented ", " indented",
        "( 0 0 0 ) ( 0 1 0 ) ( 1 0 0 ) A 0 0 0 1 1", "( 0 0 0 ) ( 0 1 0 ) ( 1 0 0 ) a 0 0 0 1 1 ", "junk", "junk\t", "Junk",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    // words of real maps, and the same with one character changed
    for _ in 0..if r.chance(1, 2) { r.below(12) } else { 0 } {
        let mut l = match r.below(4) {
            0 => vocab::comment(r),
            1 => vocab::unrecognised(r),
            _ => {
                let (k, vs) = *r.pick(&vocab::CHATTER);
                format!("\"{}\" \"{}\"{}", k, r.pick(vs), vocab::trailer(r))
            }
        };
        if r.chance(1, 60) {
            l += &"0123456789".repeat(r.range(20, 900) as usize);
        }
        if r.chance(1, 2) {
            let mut c: Vec<char> = l.chars().collect();
            match r.below(3) {
                0 => c.push(*r.pick(&[' ', 'x', '\u{e9}', '/'])),
                1 if !c.is_empty() => {
                    let k = r.below(c.len());
                    c[k] = *r.pick(&['x', 'y', ' ', 'A']);
                }
                _ => {
                    c.pop();
                }
            }
            pool.push(c.into_iter().collect());
        }
        pool.push(l);
    }
    let line = |r: &mut Rng| -> String {
        if small {
            pool[r.below(4)].clone()
        } else {
            r.pick(&pool).clone()
        }
    };
    let long = r.chance(1, 500);
    let n = if long { r.range(200, 700) as usize } else { *r.pick(&[0usize, 1, 2, 5, 12, 25]) };
    let a: Vec<String> = (0..n).map(|_| line(r)).collect();
    if r.chance(1, 800) {
        // long files that have little or nothing in common
        let n = *r.pick(&[30usize, 70, 150, 300, 600]);
        let own = |tag: &str, n: usize| -> Vec<String> { (0..n).map(|i| format!("\"{}{}\" \"{}\"", tag, i, i % 7)).collect() };
        let mut a = own("a", n);
        let m = r.range(n as i64 / 2, n as i64 * 2) as usize;
        let mut b = own("b", m);
        for k in 0..r.below(4) {
            let (i, j) = (r.below(a.len() + 1), r.below(b.len() + 1));
            let l = format!("// common {}", k);
            a.insert(i, l.clone());
            b.insert(j, l);
        }
        return (a, b);
    }
    let b = match if long { r.range(2, 6) } else { r.range(0, 4) } {
        0 => a.clone(),
        1 => (0..r.below(20)).map(|_| line(r)).collect(),
        2 => {
            let mut b = a.clone();
            if b.len() > 1 {
                let k = r.below(b.len());
                b.rotate_left(k);
            }
            b
        }
        _ => {
            let mut b = a.clone();
            for _ in 0..r.range(1, 5) {
                let i = r.below(b.len() + 1);
                match r.below(4) {
                    0 if i < b.len() => {
                        b.remove(i);
                    }
                    1 if i < b.len() => b[i] = line(r),
                    2 if i < b.len() => {
                        // move a block
                        let l = b.remove(i);
                        let j = r.below(b.len() + 1);
                        b.insert(j, l);
                    }
                    _ => b.insert(i, line(r)),
                }
            }
            b
        }
    };
    (a, b)
}

fn run_diff(a: &str, b: &str) -> Result<(Result<(), String>, String), String> {
    let (o, text) = capture_stdout(|| sut::guarded(|| quarchitect::run_diff(a, b).map_err(|e| e.to_string())));
    o.map(|o| (o, text))
}

pub fn c22(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let (la, lb) = if r.chance(1, 12) {
        // two versions of a real map
        let o = WOpts { ents: (1, 3), brushes: (0, 2), groups: r.chance(1, 2), ..WOpts::default() };
        let mut w = world::gen(r, &o);
        let a = render_lines(r, &w.map, &Style::plain());
        for e in w.map.entities.iter_mut() {
            if r.chance(1, 2) {
                e.set("note", "edited");
            }
            if r.chance(1, 3) {
                e.brushes.pop();
            }
        }
        (a, render_lines(r, &w.map, &Style::plain()))
    } else {
        diff_lines(r)
    };
    let nl = if r.chance(1, 4) { "\r\n" } else { "\n" };
    let file = |l: &[String]| l.iter().map(|x| format!("{}{}", x, nl)).collect::<String>();
    let (ta, tb) = (file(&la), file(&lb));
    ctx.inputs.clear();
    ctx.input("a.map", ta.as_bytes());
    ctx.input("b.map", tb.as_bytes());
    ctx.sample(|| format!("{}--- against\n{}", ta, tb));
    let (fa, fb) = (TmpFile::new(ta.as_bytes(), "map"), TmpFile::new(tb.as_bytes(), "map"));
    let (res, text) = run_diff(fa.path(), fb.path()).map_err(|p| format!("comparing panics: {}", p))?;
    if let Err(e) = res {
        return Err(format!("comparing two readable files fails: {}", e).into());
    }
    ctx.input("printed.txt", text.as_bytes());
    let (added, removed) = parse_diff(&text)?;
    let (xa, xb) = (tokens(&la), tokens(&lb));
    let mut ids: std::collections::HashMap<String, u32> = std::collections::HashMap::new();
    let mut id = |k: String| {
        let n = ids.len() as u32;
        *ids.entry(k).or_insert(n)
    };
    let a: Vec<u32> = xa.iter().map(|t| id(token_key(t))).collect();
    let b: Vec<u32> = xb.iter().map(|t| id(token_key(t))).collect();
    let del: Vec<u32> = removed.iter().map(|t| id(t.clone())).collect();
    let ins: Vec<u32> = added.iter().map(|t| id(t.clone())).collect();
    let l = lcs(&a, &b);
    let show = || format!("added {:?}\nremoved {:?}\n", added, removed);
    ensure!(
        del.len() == a.len() - l && ins.len() == b.len() - l,
        "{} removed and {} added, but {} and {} suffice\n{}",
        del.len(), ins.len(), a.len() - l, b.len() - l, show()
    );
    ensure!(transforms(&a, &b, &del, &ins), "the difference does not turn the first file into the second\n{}", show());
    ctx.count("differences", 1);
    ctx.count("lines removed", del.len() as u64);
    ctx.count("lines added", ins.len() as u64);
    if a != b {
        ctx.fp(mix(hash_str(&ta), hash_str(&tb)));
    } else {
        ctx.count("equal files", 1);
    }
    if r.chance(1, 20) {
        let p = format!("{}/missing.map", sut::tmp_dir().display());
        for (x, y) in [(fa.path(), p.as_str()), (p.as_str(), fb.path())] {
            match run_diff(x, y) {
                Ok((Err(_), _)) => ctx.count("missing files", 1),
                Ok((Ok(()), _)) => return Err("comparing with a missing file reports success".into()),
                Err(p) => return Err(format!("comparing with a missing file panics: {}", p).into()),
            }
        }
    }
    Ok(())
}

// ================================================================= C24

/// One operation on files, its outcome reduced to text; Err = error value.
type Outcome = Result<Result<String, String>, String>;

struct Work {
    what: &'static str,
    /// offsets in the file (or files) where its content can be cut apart
    cuts: Vec<i64>,
    marker: String,
    run: Box<dyn Fn() -> Outcome>,
    /// reading only: then a disturbed success has to equal the calm one
    reset: Box<dyn Fn()>,
}

/// Where lines of a text start and end, and its end.
fn line_cuts(t: &str) -> Vec<i64> {
    let mut v: Vec<i64> = vec![0, t.len() as i64];
    v.extend(t.match_indices('\n').flat_map(|(i, _)| [i as i64, i as i64 + 1]));
    v.sort();
    v.dedup();
    v
}

fn works(r: &mut Rng, ctx: &mut Ctx) -> (Work, Vec<TmpFile>) {
    let mut keep = vec![];
    let mark = |f: &TmpFile| f.0.file_name().unwrap().to_string_lossy().into_owned();
    let nop = || Box::new(|| ()) as Box<dyn Fn()>;
    match r.below(7) {
        0 | 1 => {
            let o = WOpts { ents: (1, 3), brushes: (0, 2), origins: true, ..WOpts::default() };
            let w = world::gen(r, &o);
            let mut t = render(r, &w.map, &Style::plain());
            if r.chance(1, 3) {
                // larger than one read buffer
                let pad = "// padding padding padding padding padding padding\n".repeat(r.range(100, 3000) as usize);
                t = pad + &t;
            }
            ctx.input("input.map", t.as_bytes());
            let f = TmpFile::new(t.as_bytes(), "map");
            let (m, p, c) = (mark(&f), f.path().to_string(), w.cfg.clone());
            keep.push(f);
            (
                Work {
                    what: "building a map",
                    cuts: line_cuts(&t),
                    marker: m,
                    run: Box::new(move || match sut::run_path(&p, &c) {
                        RunOut::Tree(t) => Ok(Ok(sut::dump_tree(&t))),
                        RunOut::Error(e) => Ok(Err(e)),
                        RunOut::Panic(p) => Err(p),
                    }),
                    reset: nop(),
                },
                keep,
            )
        }
        2 | 3 => {
            let w = crate::checks_wad::gen(r, &crate::checks_wad::WadOpts { min_tex: 1, max_tex: 4, max_dim: 2 });
            ctx.input("input.wad", &w.bytes);
            let f = TmpFile::new(&w.bytes, "wad");
            let mut cuts: Vec<i64> = (0..8).map(|_| r.below(w.bytes.len() + 1) as i64).collect();
            cuts.extend([4, 8, 12, w.bytes.len() as i64]);
            // the directory and the places it points to
            let dir = u32::from_le_bytes([w.bytes[8], w.bytes[9], w.bytes[10], w.bytes[11]]) as usize;
            let mut at = dir;
            while at + 32 <= w.bytes.len() {
                let q = u32::from_le_bytes([w.bytes[at], w.bytes[at + 1], w.bytes[at + 2], w.bytes[at + 3]]) as i64;
                cuts.extend([at as i64, q, q + 16, q + 40]);
                at += 32;
            }
            let (m, p) = (mark(&f), f.path().to_string());
            let levels = r.range(1, 4) as usize;
            keep.push(f);
            (
                Work {
                    what: "reading textures",
                    cuts,
                    marker: m,
                    run: Box::new(move || {
                        sut::guarded(|| wad::read_textures(&p, None, levels)).map(|o| o.map(|t| crate::checks_wad::digest(&t).1))
                    }),
                    reset: nop(),
                },
                keep,
            )
        }
        4 => {
            let b: Vec<u8> = (0..768 + r.below(3)).map(|_| r.below(256) as u8).collect();
            ctx.input("palette.lmp", &b);
            let f = TmpFile::new(&b, "lmp");
            let (m, p) = (mark(&f), f.path().to_string());
            keep.push(f);
            (
                Work {
                    what: "reading a palette",
                    cuts: vec![0, 3, 300, 765, 766, 767, 768, 769],
                    marker: m,
                    run: Box::new(move || {
                        sut::guarded(|| wad::palette::read_palette(&p))
                            .map(|o| o.map(|p| format!("{:?}", p.0.iter().map(|c| [c.0, c.1, c.2]).collect::<Vec<_>>())))
                    }),
                    reset: nop(),
                },
                keep,
            )
        }
        5 => {
            let (a, b) = diff_lines(r);
            let (fa, fb) = (TmpFile::new(a.join("\n").as_bytes(), "cmp"), TmpFile::new(b.join("\n").as_bytes(), "cmp"));
            let mut cuts = line_cuts(&a.join("\n"));
            cuts.extend(line_cuts(&b.join("\n")));
            let (pa, pb) = (fa.path().to_string(), fb.path().to_string());
            keep.push(fa);
            keep.push(fb);
            (
                Work {
                    what: "comparing maps",
                    cuts,
                    marker: ".cmp".into(),
                    run: Box::new(move || match run_diff(&pa, &pb) {
                        Ok((Ok(()), t)) => Ok(Ok(t)),
                        Ok((Err(e), _)) => Ok(Err(e)),
                        Err(p) => Err(p),
                    }),
                    reset: nop(),
                },
                keep,
            )
        }
        _ => {
            let mut g = rand_game_data(r);
            while g.to_string().len() < 200 {
                g = rand_game_data(r);
            }
            let old = vec![b'#'; *r.pick(&[0usize, 50, 100_000])];
            let f = TmpFile::new(&old, "fgd");
            ctx.input("game_data.txt", format!("{:#?}", g).as_bytes());
            let cuts = line_cuts(&g.to_string());
            let (m, p) = (mark(&f), f.path().to_string());
            let p2 = p.clone();
            keep.push(f);
            (
                Work {
                    what: "saving definitions",
                    cuts,
                    marker: m,
                    run: Box::new(move || sut::guarded(|| g.save(p.clone())).map(|o| o.map_err(|e| e.to_string()).map(|_| String::new()))),
                    reset: Box::new(move || {
                        std::fs::write(&p2, &old).expect("harness: scratch");
                    }),
                },
                keep,
            )
        }
    }
}

pub fn c24(ctx: &mut Ctx, r: &mut Rng) -> Res {
    ctx.inputs.clear();
    let (w, files) = works(r, ctx);
    let saving = w.what == "saving definitions";
    let one = |ctx: &mut Ctx, plan: Plan| -> Result<(Result<String, String>, io::Seen), Fail> {
        (w.reset)();
        let show = format!("{:?}", plan);
        let (o, seen) = io::with_plan(&w.marker, plan, || (w.run)());
        ctx.count("runs", 1);
        ctx.count("system calls observed", seen.calls);
        ctx.count("faults injected", seen.injected);
        match o {
            Err(p) => Err(Fail::Violation(format!("{}: panic under {}: {}", w.what, show, p))),
            Ok(Ok(s)) if saving => {
                // success is only success if the file is there
                let b = std::fs::read(&files[0].0).unwrap_or_default();
                Ok((Ok(format!("{}{}", s, String::from_utf8_lossy(&b))), seen))
            }
            Ok(o) => Ok((o, seen)),
        }
    };
    let (base, seen) = one(ctx, Plan::default())?;
    let base = match base {
        Ok(b) => b,
        Err(e) => return Err(Fail::Skip(format!("{} fails without faults: {}", w.what, e.chars().take(40).collect::<String>()))),
    };
    if seen.calls < 2 || !seen.events.iter().any(|e| matches!(e.op, Op::Read | Op::Write)) {
        return Err(Fail::Skip("its system calls are not visible".into()));
    }
    ctx.sample(|| format!("{}: {} system calls", w.what, seen.calls));
    ctx.count(w.what, 1);
    // nothing lost to partial transfers and interruptions
    for k in 0..3 {
        let plan = Plan {
            short: if k != 1 { Some(*r.pick(&[1usize, 7, 64, 1000])) } else { None },
            eintr: k != 0,
            seed: r.next(),
            ..Plan::default()
        };
        let show = format!("{:?}", plan);
        let (o, s) = one(ctx, plan)?;
        match o {
            Ok(o) => ensure!(o == base, "{}: the result differs under {}", w.what, show),
            Err(e) => return Err(format!("{}: fails with {} under {}", w.what, e, show).into()),
        }
        ctx.count(if k == 0 { "short transfers survived" } else { "interruptions survived" }, 1);
        if s.events.len() > 2 {
            ctx.fp(mix(hash_bytes(w.marker.as_bytes()), mix(hash_str(&show), ctx.case)));
        }
    }
    // a file may turn out unreadable (a disk full) from any place on
    let mut cuts = w.cuts.clone();
    if cuts.len() > 40 {
        r.shuffle(&mut cuts);
        cuts.truncate(40);
    }
    for at in cuts {
        let err = if saving { io::ENOSPC } else { io::EIO };
        let plan = Plan { edge: Some((at, err)), seed: r.next(), ..Plan::default() };
        let show = format!("{:?}", plan);
        let (o, s) = one(ctx, plan)?;
        if s.injected == 0 {
            ctx.count("faults not reached", 1);
            continue;
        }
        match o {
            Err(_) => ctx.count("files unusable from some place on, reported", 1),
            Ok(o) => {
                ensure!(o == base, "{}: reports success with another result under {}", w.what, show);
                ctx.count("faults without effect", 1);
            }
        }
        ctx.fp(mix(hash_str(w.what), mix(at as u64, mix(77, ctx.case))));
    }
    // every call may fail, once or for good
    let total = seen.calls;
    let mut ks: Vec<u64> = (0..total).collect();
    if ks.len() > 60 {
        r.shuffle(&mut ks);
        ks.truncate(60);
    } else {
        ctx.count("operations with every call failed", 1);
    }
    for k in ks {
        let err = if saving {
            *r.pick(&[io::EIO, io::ENOSPC, io::EACCES])
        } else {
            *r.pick(&[io::EIO, io::EACCES, io::EMFILE])
        };
        let plan = Plan { fail_at: Some((k, err)), sticky: r.chance(1, 2), seed: r.next(), ..Plan::default() };
        let show = format!("{:?}", plan);
        let (o, s) = one(ctx, plan)?;
        if s.injected == 0 {
            ctx.count("faults not reached", 1);
            continue;
        }
        match o {
            Err(_) => ctx.count("faults reported", 1),
            Ok(o) => {
                ensure!(o == base, "{}: reports success with another result under {}", w.what, show);
                ctx.count("faults without effect", 1);
            }
        }
        ctx.fp(mix(hash_str(w.what), mix(k, mix(err as u64, mix(total, ctx.case)))));
    }
    Ok(())
}
