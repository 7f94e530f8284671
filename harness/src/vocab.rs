//! Words real maps are made of, which the formats give no meaning to: an
//! implementation that gives one of them a meaning of its own is found out.
use crate::mapgen::GEntity;
use crate::rng::Rng;

/// Keys without a meaning to the map builder, with values they usually have.
pub const CHATTER: [(&str, &[&str]); 60] = [
    ("targetname", &["door1", "t1", "worldspawn", "light", "", "1"]),
    ("target", &["door1", "t1", "t2", "1"]),
    ("killtarget", &["t1", "t9"]),
    ("name", &["Bob", "Group 1", "cls_0", "worldspawn"]),
    ("message", &["Hello \\n world", "the end", "// end", "}", "{"]),
    ("model", &["*1", "progs/player.mdl", "maps/b_shell0.bsp"]),
    ("wad", &["gfx/base.wad", "C:\\quake\\gfx\\medieval.wad;b.wad", "/x/y.wad"]),
    ("_wad", &["id.wad"]),
    ("mapversion", &["220", "100", "0"]),
    ("sounds", &["0", "1", "4"]),
    ("spawnflags", &["0", "1", "2048", "-1", "3"]),
    ("angle", &["0", "90", "-1", "-2", "360", "45.5"]),
    ("angles", &["0 90 0", "10 20 30"]),
    ("mangle", &["0 90 0", "-30 45 0"]),
    ("light", &["300", "0", "-100"]),
    ("_light", &["255 255 128 200"]),
    ("_color", &["1 0.5 0", "255 128 0"]),
    ("rendercolor", &["0 0 0"]),
    ("rendermode", &["0", "1", "2"]),
    ("renderamt", &["0", "255"]),
    ("speed", &["100", "0"]),
    ("wait", &["-1", "3"]),
    ("delay", &["1.5"]),
    ("lip", &["8"]),
    ("dmg", &["2", "-5"]),
    ("health", &["100", "0"]),
    ("height", &["64"]),
    ("count", &["3"]),
    ("scale", &["2", "0.5", "1 1 1"]),
    ("rotation", &["0 0 0", "90"]),
    ("skin", &["1"]),
    ("parent", &["t1", "0", "1"]),
    ("parentname", &["t1"]),
    ("group", &["1", "g0"]),
    ("id", &["1", "2"]),
    ("uuid", &["0"]),
    ("layer", &["1", "Default"]),
    ("type", &["_tb_group", "prefab"]),
    ("class", &["light"]),
    ("Classname", &["light", "worldspawn"]),
    ("CLASSNAME", &["worldspawn"]),
    ("classname ", &["worldspawn", "light"]),
    ("Origin", &["1 2 3"]),
    ("ORIGIN", &["64 64 64"]),
    ("origin2", &["9 9 9"]),
    ("_origin", &["5 6 7"]),
    ("_tb_layer", &["1", "2", "9999"]),
    ("_tb_layer_sort_index", &["0", "1"]),
    ("_tb_layer_hidden", &["1"]),
    ("_tb_layer_locked", &["1"]),
    ("_tb_layer_omit_from_export", &["1", "0"]),
    ("_tb_linked_group_id", &["{ab-cd}", "1"]),
    ("_tb_transformation", &["1 0 0 64 0 1 0 0 0 0 1 0 0 0 0 1"]),
    ("_tb_mod", &["ad"]),
    ("_tb_textures", &["textures/a;textures/b"]),
    ("_tb_def", &["external:x.fgd"]),
    ("_phong_group", &["1", "2"]),
    ("phong", &["1"]),
    ("phong_angle", &["45"]),
    ("_minlight", &["20"]),
];

/// Add some keys without a meaning, before, between or after the others.
pub fn chatter(r: &mut Rng, e: &mut GEntity, skip: &dyn Fn(&str) -> bool) {
    let n = if r.chance(1, 40) { 40 } else { r.range(1, 6) };
    for _ in 0..n {
        let (k, vs) = *r.pick(&CHATTER);
        if skip(k) || e.get(k).is_some() {
            continue;
        }
        let v = (*r.pick(vs)).to_string();
        let at = r.below(e.props.len() + 1);
        e.props.insert(at, (k.to_string(), v));
    }
}

/// Texture names of every game and tool; none of them is a liquid with a layer.
pub const TEXTURES: [&str; 64] = [
    "trigger", "clip", "skip", "hint", "hintskip", "origin", "nodraw", "caulk", "null", "none", "sky", "sky1", "SKY4", "black", "AAATRIGGER", "aaatrigger",
    "common/caulk", "common/clip", "common/trigger", "common/origin", "special/clip", "special/skip", "special/trigger", "special/origin",
    "textures/common/nodraw", "tools/toolsnodraw", "tools/toolsclip", "__TB_empty", "__tb_empty", "NO_TEXTURE", "notexture", "missing", "default", "null.png",
    "*lava0", "*lava1", "*teleport", "*tele01", "*water1", "*water2", "*04mwat1", "!water", "!lava", "water0", "slime0", "water", "lava", "#water0",
    "{fence", "{grate01", "+0button", "+abutton", "-0floor", "-3floor", "~light1", "@sky", "$water", "&x", "1", "0", "a.b.c", "e1u1/trigger",
    "\u{e9}tage/\u{c9}COLE", "\u{3a9}\u{42f}_wand",
];

/// A comment as tools, editors and people write them.
pub fn comment(r: &mut Rng) -> String {
    let words = [
        "// note", "//", "/ odd comment", "// { \"a\" \"b\" } ( 1 2 3 )", "// \u{e9}\u{4e16} text", "// end", "//end", "// END", "// eof", "// EOF", "// stop",
        "// exit", "// Game: Quake", "// Game: Quake 3", "// Format: Valve", "// Format: Standard", "// Format: Quake2", "// Format: Quake2 (Valve)",
        "// Format: Unknown", "// entity 0", "// entity 7", "// brush 0", "// brush 12", "// Brush 1", "// worldspawn", "// \"classname\" \"worldspawn\"",
        "//}", "//{", "// }", "// {", "/* block", "/*", "/**/", "*/", "/", "///////////////", "//\t", "// TODO: remove", "// Exported by J.A.C.K.",
        "// This file is generated by QuArK Army Knife", "//$texture", "//TX1", "//TX2", "// mapversion 220", "// version 2", "// #include \"x.map\"", "// begin",
        "// \\", "// \u{feff}", "// \u{2028}x", "//\u{b}", "// \u{85}", "// \"", "// \"\"\"\"", "// (", "// ( 0 0 0 ) ( 0 1 0 ) ( 1 0 0 ) t 0 0 0 1 1",
    ];
    let mut s = r.pick(&words).to_string();
    if s == "*/" {
        s = "// */".into();
    }
    if r.chance(1, 400) {
        let n = *r.pick(&[255usize, 256, 1023, 1024, 4095, 4096, 8192, 65535, 70000]);
        while s.len() < n {
            s.push(*r.pick(&['x', ' ', '{', '}', '(', '"', '/', '-']));
        }
        // not a multiple of anything
        for _ in 0..r.below(3) {
            s.push('z');
        }
    }
    s
}

/// A line that is none of comment, brace, property or plane.
pub fn unrecognised(r: &mut Rng) -> String {
    let words = [
        "", " ", "\t", "    ", "x", "Version 2", "entityDef", "brushDef", "patchDef2", "iwmap 4", "; semicolon", "# hash", "#", "[", "]", ")", "0", "-1 2 3", "\u{e9}",
        "\u{4e16}\u{754c}", "\u{1f600} smile", "\u{feff}", "*", "end", "END", "eof", "classname", "classname worldspawn", "'k' 'v'", "  // indented comment", "\t//", ":",
        "=", "<xml>", "@", "~", "\\", ".", ",", "!", "?", "%", "^", "&", "_", "`", "|", "\u{a0}", "\u{b}", "\u{2028}", "\u{0}",
    ];
    let mut s = r.pick(&words).to_string();
    if r.chance(1, 400) && !s.is_empty() {
        s += &" (x) ".repeat(r.range(100, 14000) as usize);
    }
    s
}

/// What may follow a brace or a property on its line.
pub fn trailer(r: &mut Rng) -> String {
    (*r.pick(&["", " ", " // entity 3", " // end", "//", "\t// \"k\" \"v\"", " x", " \u{e9}", " // }", " // {"])).to_string()
}

/// A number written as editors, tools and people write numbers; it reads back
/// as exactly this number.
pub fn spell(r: &mut Rng, f: f32) -> String {
    let plain = format!("{}", f);
    if !f.is_finite() {
        return plain;
    }
    let digits = plain.trim_start_matches('-').to_string();
    let sign = if plain.starts_with('-') { "-" } else { "" };
    let s = match r.below(14) {
        0 if !digits.contains('.') => format!("{}.", plain),
        1 if !digits.contains('.') => format!("{}.0", plain),
        2 if digits.starts_with("0.") => format!("{}{}", sign, &digits[1..]),
        3 if sign.is_empty() => format!("+{}", plain),
        4 => format!("{:e}", f),
        5 => format!("{:E}", f),
        6 => format!("{}{}{}", sign, "0".repeat(1 + r.below(4)), digits),
        7 if digits.contains('.') => format!("{}{}", plain, "0".repeat(1 + r.below(6))),
        8 => format!("{}.{}e0", plain.split('.').next().unwrap(), plain.split('.').nth(1).unwrap_or("")),
        9 => format!("{:.6}", f),
        10 => format!("{:.3}", f),
        11 => format!("{:e}", f).replace('e', "e+").replace("e+-", "e-0"),
        _ => return plain,
    };
    match s.parse::<f32>() {
        Ok(x) if x.to_bits() == f.to_bits() => s,
        _ => plain,
    }
}

/// Text that is no number to the formats, however much it looks like one.
pub const NOT_NUMBERS: [&str; 24] = [
    "x", "0x10", "5f", "1_000", "1,5", "--2", "+-2", "1e", "e5", ".", "-", "+", "5..", "1.5.2", "1'000", "#3", "$1", "1%", "(1)", "\u{661}", "\u{ff15}", "1\u{a0}", "\u{2212}5",
    "one",
];

/// A name that is another name, though somebody could take it for the same.
pub fn near_name(r: &mut Rng, n: &str) -> String {
    let cut = |k: usize| n.chars().take(k).collect::<String>();
    let len = n.chars().count();
    match r.below(22) {
        0 => format!("{} ", n),
        1 => format!(" {}", n),
        2 => format!("{}\t", n),
        3 => format!("{}\u{a0}", n),
        4 => format!("{}_", n),
        5 => format!("_{}", n),
        6 => format!("{}0", n),
        7 => format!("{}1", n),
        8 => n.to_uppercase(),
        9 => n.to_lowercase(),
        10 => cut(len.saturating_sub(1)),
        11 => n.chars().skip(1).collect(),
        12 => n.chars().rev().collect(),
        13 => n.replace('_', " "),
        14 => n.replace('_', "-"),
        15 => n.replace('_', ""),
        16 => format!("{}{}", n, n),
        17 => format!("{}*", n),
        18 => format!("{}\u{301}", n),
        19 => format!("{}.{}", n, n),
        // agree in the first hundreds of characters
        20 => format!("{}{}", n.repeat(300 / len.max(1) + 1), r.below(4)),
        _ => format!("{}{}", n, *r.pick(&["\u{200b}", "\u{feff}", "\u{b}", "\\", "'", "*", ";", ","])),
    }
}
