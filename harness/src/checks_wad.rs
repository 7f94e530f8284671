//! Oracles for WAD archives, palettes and color conversion.
use crate::ensure;
use crate::fw::*;
use crate::io::{self, Plan};
use crate::rng::{hash_bytes, hash_str, mix, Rng};
use crate::sut::{self, TmpFile};
use quarchitect::wad::mip_level::MipLevel;
use quarchitect::wad::palette::{read_palette, Palette};
use quarchitect::wad::{self, Color, MipDataIndexed, MipTexture, TextureIndexed, TextureRGB};

#[derive(Clone, Debug)]
pub struct GTex {
    pub entry_name: String,
    pub name: String,
    pub kind: u8,
    pub w: u32,
    pub h: u32,
    pub mips: [Vec<u8>; 4],
    pub palette: Vec<u8>,
    pub offs: [u32; 4],
}

#[derive(Clone)]
pub struct GWad {
    pub bytes: Vec<u8>,
    pub wad3: bool,
    pub texs: Vec<GTex>,
    /// every entry, in directory order: index into texs, or None for other kinds
    pub dir: Vec<Option<usize>>,
    pub layout: String,
    /// how many mip levels there are; the offsets of further ones mean nothing
    pub kept: usize,
}

impl GWad {
    /// A WAD2 archive without the smaller mip levels: their offsets are zero
    /// or lead nowhere.
    fn strip(&mut self, r: &mut Rng, kept: usize) {
        if self.wad3 || kept >= self.kept {
            return;
        }
        let le = |b: &[u8], at: usize| u32::from_le_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]) as usize;
        let dir = le(&self.bytes, 8);
        self.kept = kept;
        let any = r.chance(1, 3);
        for (k, d) in self.dir.iter().enumerate() {
            if let Some(i) = d {
                let head = le(&self.bytes, dir + 32 * k);
                for l in kept..4 {
                    let o = if any { *r.pick(&[0u32, 40, 1, u32::MAX]) } else { 0 };
                    self.texs[*i].offs[l] = o;
                    self.bytes[head + 24 + 4 * l..head + 28 + 4 * l].copy_from_slice(&o.to_le_bytes());
                }
            }
        }
    }

    /// Every pixel and palette byte another one, everything else as it was.
    fn reword(&mut self, r: &mut Rng) {
        let key = 1 + r.below(255) as u8;
        let le = |b: &[u8], at: usize| u32::from_le_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]) as usize;
        let dir = le(&self.bytes, 8);
        let mut spans = vec![];
        for (k, d) in self.dir.iter().enumerate() {
            if let Some(i) = d {
                let head = le(&self.bytes, dir + 32 * k);
                let t = &self.texs[*i];
                for k in 0..self.kept {
                    spans.push((*i, k, head + t.offs[k] as usize, t.mips[k].len()));
                }
                if self.wad3 {
                    spans.push((*i, 4, head + t.offs[3] as usize + t.mips[3].len() + 2, 768));
                }
            }
        }
        let mut hit = vec![false; self.bytes.len()];
        for (_, _, at, n) in &spans {
            hit[*at..at + n].iter_mut().for_each(|h| *h = true);
        }
        for (b, h) in self.bytes.iter_mut().zip(&hit) {
            if *h {
                *b ^= key;
            }
        }
        for (i, k, at, n) in spans {
            let part = self.bytes[at..at + n].to_vec();
            if k < 4 {
                self.texs[i].mips[k] = part;
            } else {
                self.texs[i].palette = part;
            }
        }
    }
}

fn rand_bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    match r.below(5) {
        0 => {
            let b = *r.pick(&[0u8, 255, 1, 10, 13, 128]);
            v.resize(n, b);
        }
        1 => {
            let s = r.below(256);
            v.extend((0..n).map(|i| (i + s) as u8));
        }
        _ => {
            while v.len() < n {
                v.extend_from_slice(&r.next().to_le_bytes());
            }
            v.truncate(n);
        }
    }
    v
}

/// A name as it is stored: one byte per character.
fn latin1(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}

fn name16(r: &mut Rng, s: &str) -> [u8; 16] {
    let mut n = [0u8; 16];
    let b = latin1(s);
    n[..b.len()].copy_from_slice(&b);
    if b.len() < 15 && r.chance(1, 2) {
        // bytes after the terminator are whatever the tool left there
        for x in n[b.len() + 1..].iter_mut() {
            *x = (r.below(94) + 33) as u8;
        }
    }
    n
}

fn rand_name(r: &mut Rng, i: usize) -> String {
    if r.chance(1, 6) {
        // any bytes but the terminator
        let n = r.range(0, 16);
        let all: &[u8] = &[b' ', b'\t', b'A', b'z', b'.', b'/', b'\\', b'"', 0x1b, 0x7f, 0x80, 0x85, 0xa0, 0xc0, 0xc9, 0xd8, 0xdf, 0xe9, 0xff, 0xb5, 0xd7];
        return (0..n).map(|_| *r.pick(all) as char).collect();
    }
    let base = *r.pick(&[
        "brick", "Brick1", "*water0", "+0LIGHT", "{fence", "-1floor", "sky1", "a", "MIXED_Case", "~lava", "exactly16chars__", "w a l l", " lead", "trail ",
        "trail  ", "\u{c9}COLE", "\u{fc}ber\u{dc}", "conchars", "CONBACK", "palette", "gfx", "a.mip", "",
    ]);
    if r.chance(1, 3) || base.len() > 12 {
        base.to_string()
    } else {
        format!("{}{}", base, i)
    }
}

pub struct WadOpts {
    pub max_tex: usize,
    pub max_dim: i64,
    pub min_tex: usize,
}

pub fn gen(r: &mut Rng, o: &WadOpts) -> GWad {
    let wad3 = r.chance(1, 2);
    let n = r.range(o.min_tex as i64, o.max_tex as i64) as usize;
    let mut texs = vec![];
    for i in 0..n {
        let w = 8 * r.range(1, o.max_dim) as u32;
        let h = 8 * r.range(1, o.max_dim) as u32;
        let s = (w * h) as usize;
        let entry_name = rand_name(r, i);
        let name = if r.chance(3, 4) { entry_name.clone() } else { rand_name(r, i) };
        texs.push(GTex {
            entry_name,
            name,
            kind: *r.pick(&[b'C', b'D']),
            w,
            h,
            mips: [rand_bytes(r, s), rand_bytes(r, s / 4), rand_bytes(r, s / 16), rand_bytes(r, s / 64)],
            palette: if wad3 { rand_bytes(r, 768) } else { vec![] },
            offs: [0; 4],
        });
    }
    // what lies where: (texture, part) with part 0 = header, 1..=4 = mips, 5 = directory
    let scattered = r.chance(1, 2);
    let gaps = r.chance(1, 2);
    let mut chunks: Vec<(usize, usize)> = vec![];
    for i in 0..n {
        for p in 0..5 {
            chunks.push((i, p));
        }
    }
    let mut shared = false;
    if scattered {
        r.shuffle(&mut chunks);
        // headers come before their own data, because offsets are unsigned
        for i in 0..n {
            let at: Vec<usize> = (0..chunks.len()).filter(|k| chunks[*k].0 == i).collect();
            let hp = at.iter().position(|k| chunks[*k].1 == 0).unwrap();
            chunks.swap(at[0], at[hp]);
        }
    } else if r.chance(1, 2) {
        // whole textures in another order than the directory
        let mut order: Vec<usize> = (0..n).collect();
        r.shuffle(&mut order);
        chunks = order.into_iter().flat_map(|i| (0..5).map(move |p| (i, p))).collect();
    }
    let dir_at = match r.below(3) {
        0 => 0,
        1 => r.below(chunks.len() + 1),
        _ => chunks.len(),
    };
    chunks.insert(dir_at, (usize::MAX, 5));
    // directory: every texture once, other kinds between
    let mut dir: Vec<Option<usize>> = vec![];
    for i in 0..n {
        if r.chance(1, 4) {
            dir.push(None);
        }
        dir.push(Some(i));
    }
    if r.chance(1, 4) {
        dir.push(None);
    }
    if n > 0 && r.chance(1, 8) {
        // the same texture listed twice
        dir.push(Some(r.below(n)));
    }
    let mut b = vec![0u8; 12];
    let mut dir_off = 0usize;
    let mut head = vec![0usize; n];
    let mut lens = vec![0usize; n];
    for (i, p) in &chunks {
        if gaps {
            for _ in 0..r.below(20) {
                b.push(r.below(256) as u8);
            }
        }
        match p {
            5 => {
                dir_off = b.len();
                b.resize(b.len() + 32 * dir.len(), 0);
            }
            0 => {
                head[*i] = b.len();
                b.resize(b.len() + 40, 0);
            }
            _ => {
                let k = p - 1;
                if k < 3 && k > 0 && !scattered && r.chance(1, 40) {
                    // a level may alias the start of a bigger one
                    texs[*i].offs[k] = texs[*i].offs[0];
                    let s = texs[*i].mips[k].len();
                    texs[*i].mips[k] = texs[*i].mips[0][..s].to_vec();
                    shared = true;
                    continue;
                }
                texs[*i].offs[k] = (b.len() - head[*i]) as u32;
                b.extend_from_slice(&texs[*i].mips[k].clone());
                if k == 3 && wad3 {
                    b.extend_from_slice(&256u16.to_le_bytes());
                    b.extend_from_slice(&texs[*i].palette.clone());
                }
                lens[*i] = b.len() - head[*i];
            }
        }
    }
    if r.chance(1, 3) {
        for _ in 0..r.below(50) {
            b.push(r.below(256) as u8);
        }
    }
    b[..4].copy_from_slice(if wad3 { b"WAD3" } else { b"WAD2" });
    b[4..8].copy_from_slice(&(dir.len() as u32).to_le_bytes());
    b[8..12].copy_from_slice(&(dir_off as u32).to_le_bytes());
    for (i, t) in texs.iter().enumerate() {
        let mut m = vec![];
        m.extend_from_slice(&name16(r, &t.name));
        for x in [t.w, t.h, t.offs[0], t.offs[1], t.offs[2], t.offs[3]] {
            m.extend_from_slice(&x.to_le_bytes());
        }
        b[head[i]..head[i] + 40].copy_from_slice(&m);
    }
    for (k, d) in dir.iter().enumerate() {
        let mut e = vec![];
        let (off, len, kind, name) = match d {
            Some(i) => (head[*i] as u32, lens[*i] as u32, texs[*i].kind, texs[*i].entry_name.clone()),
            None => (
                *r.pick(&[0u32, 12, u32::MAX, 40]),
                r.below(1000) as u32,
                *r.pick(&[b'@', b'B', b'E', b'F', 0, b'c', b'd', 0x42, 0x40]),
                rand_name(r, k),
            ),
        };
        e.extend_from_slice(&off.to_le_bytes());
        // (what the directory says of sizes is no part of a texture)
        for _ in 0..2 {
            let x = if r.chance(1, 6) { *r.pick(&[0u32, 1, 39, 40, 41, 2, u32::MAX]) } else { len };
            e.extend_from_slice(&x.to_le_bytes());
        }
        e.push(kind);
        e.push(0);
        e.extend_from_slice(&(r.below(65536) as u16).to_le_bytes());
        e.extend_from_slice(&name16(r, &name));
        b[dir_off + 32 * k..dir_off + 32 * k + 32].copy_from_slice(&e);
    }
    let layout = format!(
        "{} {} textures, {} entries, {}{}{}",
        if wad3 { "WAD3" } else { "WAD2" },
        n,
        dir.len(),
        if scattered { "scattered" } else { "contiguous" },
        if gaps { ", gaps" } else { "" },
        if shared { ", shared data" } else { "" }
    );
    GWad { bytes: b, wad3, texs, dir, layout, kept: 4 }
}

fn put(ctx: &mut Ctx, b: &[u8], note: &str) {
    ctx.inputs.clear();
    ctx.input("input.wad", b);
    ctx.input("request.txt", note.as_bytes());
}

fn pal_bytes(p: &Palette) -> Vec<u8> {
    p.0.iter().flat_map(|c| [c.0, c.1, c.2]).collect()
}

fn level(m: &MipDataIndexed, k: usize) -> Option<&Vec<u8>> {
    match k {
        0 => Some(&m.mip0.0),
        1 => m.mip1.as_ref().map(|m| &m.0),
        2 => m.mip2.as_ref().map(|m| &m.0),
        _ => m.mip3.as_ref().map(|m| &m.0),
    }
}

fn desc(t: &TextureIndexed) -> String {
    let m = &t.mip_texture;
    format!("{:?} {}x{} at {:?}", m.name, m.width, m.height, [m.offset1, m.offset2, m.offset4, m.offset8])
}

/// Everything observable about a reading, as one number and one text.
pub fn digest(ts: &[TextureIndexed]) -> (u64, String) {
    let mut h = ts.len() as u64;
    let mut s = String::new();
    for t in ts {
        h = mix(h, hash_str(&desc(t)));
        s.push_str(&desc(t));
        for k in 0..4 {
            let l = level(&t.mip_data, k);
            h = mix(h, l.map_or(k as u64, |l| mix(hash_bytes(l), l.len() as u64 + 9)));
            s.push_str(&format!(" {:?}", l.map(|l| format!("{}:{:x}", l.len(), hash_bytes(l)))));
        }
        let p = t.palette.as_ref().map(pal_bytes);
        h = mix(h, p.as_ref().map_or(77, |p| hash_bytes(p)));
        s.push_str(&format!(" palette {:?}\n", p.map(|p| hash_bytes(&p))));
    }
    (h, s)
}

fn read(path: &str, wl: &Option<Vec<String>>, levels: usize) -> Result<Result<Vec<TextureIndexed>, String>, String> {
    sut::guarded(|| wad::read_textures(path, wl.clone(), levels))
}

fn rand_whitelist(r: &mut Rng, w: &GWad) -> Option<Vec<String>> {
    if r.chance(1, 2) {
        return None;
    }
    let mut v = vec![];
    for t in &w.texs {
        if r.chance(1, 3) {
            v.push(t.entry_name.clone());
            if r.chance(1, 6) {
                v.push(t.entry_name.clone());
            }
        }
    }
    for x in ["nothing_here", "bric", "x", ""] {
        if r.chance(1, 4) {
            v.push(x.into());
        }
    }
    r.shuffle(&mut v);
    Some(v)
}

fn selected(w: &GWad, wl: &Option<Vec<String>>) -> Vec<usize> {
    w.dir
        .iter()
        .flatten()
        .copied()
        .filter(|i| wl.as_ref().map_or(true, |l| l.contains(&w.texs[*i].entry_name)))
        .collect()
}

fn same_as_built(w: &GWad, want: &[usize], got: &[TextureIndexed], levels: usize) -> Result<(), String> {
    if want.len() != got.len() {
        return Err(format!("{} textures expected, {} read", want.len(), got.len()));
    }
    for (pos, (i, t)) in want.iter().zip(got).enumerate() {
        let g = &w.texs[*i];
        let m = &t.mip_texture;
        let n = g.name.to_lowercase();
        if m.name != n || m.width != g.w || m.height != g.h || [m.offset1, m.offset2, m.offset4, m.offset8] != g.offs {
            return Err(format!("texture {}: read as {}, stored as {:?} {}x{} at {:?}", pos, desc(t), n, g.w, g.h, g.offs));
        }
        for k in 0..4 {
            let l = level(&t.mip_data, k);
            if k >= levels {
                if l.is_some() {
                    return Err(format!("texture {}: level {} present although {} levels were requested", pos, k, levels));
                }
                continue;
            }
            let l = l.ok_or_else(|| format!("texture {}: level {} missing", pos, k))?;
            if l != &g.mips[k] {
                let at = l.iter().zip(&g.mips[k]).position(|(a, b)| a != b);
                return Err(format!(
                    "texture {} level {}: {} bytes read, {} stored, first difference at {:?}",
                    pos, k, l.len(), g.mips[k].len(), at
                ));
            }
        }
        let p = t.palette.as_ref().map(pal_bytes);
        let want = if w.wad3 { Some(g.palette.clone()) } else { None };
        if p != want {
            return Err(format!(
                "texture {}: palette {:?}..., stored {:?}...",
                pos,
                p.map(|p| p[..6].to_vec()),
                want.map(|p| p[..6].to_vec())
            ));
        }
    }
    Ok(())
}

// ================================================================= C18

pub fn c18(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let (min_tex, max_tex, max_dim) = match r.below(3000) {
        // more entries than any small table holds
        0 => (300, 3000, 1),
        1 | 2 => (200, 1100, 1),
        x if x < 300 => (0, 12, 16),
        _ => (0, 12, 4),
    };
    let mut w = gen(r, &WadOpts { min_tex, max_tex, max_dim });
    if w.texs.len() > 255 {
        ctx.count("archives of hundreds or thousands of textures", 1);
    }
    ctx.peak("entries", w.dir.len() as u64);
    let f = TmpFile::new(&w.bytes, "wad");
    for round in 0..3 {
        if round > 0 && r.chance(1, 3) {
            // the same path now holds another archive, or another version of this one
            if r.chance(1, 2) {
                w = gen(r, &WadOpts { min_tex: 0, max_tex: 8, max_dim: 2 });
            } else {
                w.reword(r);
            }
            std::fs::write(&f.0, &w.bytes).expect("harness: scratch");
            if let Ok(h) = std::fs::OpenOptions::new().write(true).open(&f.0) {
                let _ = h.set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000));
            }
            ctx.count("files replaced between readings", 1);
        }
        let wl = rand_whitelist(r, &w);
        let levels = r.range(1, w.kept as i64) as usize;
        if levels < w.kept && r.chance(1, 8) {
            w.strip(r, levels);
            std::fs::write(&f.0, &w.bytes).expect("harness: scratch");
            ctx.count("archives without their smaller mip levels", !w.wad3 as u64);
        }
        put(ctx, &w.bytes, &format!("levels {} whitelist {:?}\n{}", levels, wl, w.layout));
        ctx.sample(|| format!("{}, levels {}, whitelist {:?}", w.layout, levels, wl));
        let want = selected(&w, &wl);
        let got = match read(f.path(), &wl, levels) {
            Ok(Ok(t)) => t,
            Ok(Err(e)) => return Err(format!("complete archive ({}) is rejected: {}", w.layout, e).into()),
            Err(p) => return Err(format!("complete archive ({}): panic: {}", w.layout, p).into()),
        };
        same_as_built(&w, &want, &got, levels).map_err(|e| format!("{} ({}, whitelist {:?}, {} levels)", e, w.layout, wl, levels))?;
        ctx.count("archives read", 1);
        ctx.count("textures compared", got.len() as u64);
        ctx.count(if wl.is_some() { "with a whitelist" } else { "without a whitelist" }, 1);
        ctx.count("bytes compared", got.iter().map(|t| t.mip_data.mip0.0.len() as u64).sum());
        if !got.is_empty() {
            ctx.fp(mix(digest(&got).0, hash_str(&w.layout)));
        }
    }
    // palette files
    let extra = *r.pick(&[0usize, 0, 1, 100]);
    let pal = rand_bytes(r, 768 + extra);
    let pf = TmpFile::new(&pal, "lmp");
    ctx.input("palette.lmp", &pal);
    match sut::guarded(|| read_palette(pf.path())) {
        Ok(Ok(p)) => ensure!(pal_bytes(&p) == pal[..768], "palette file read differently from its bytes"),
        Ok(Err(e)) => return Err(format!("palette file of {} bytes is rejected: {}", pal.len(), e).into()),
        Err(e) => return Err(format!("palette file of {} bytes: panic {}", pal.len(), e).into()),
    }
    ctx.count("palette files", 1);
    Ok(())
}

// ================================================================= C19

fn pools() -> &'static Vec<(usize, rayon::ThreadPool)> {
    static P: std::sync::OnceLock<Vec<(usize, rayon::ThreadPool)>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        [1usize, 2, 3, 8, 16, 40]
            .iter()
            .map(|n| {
                (
                    *n,
                    rayon::ThreadPoolBuilder::new().num_threads(*n).build().expect("harness: pool"),
                )
            })
            .collect()
    })
}

fn interleaving(evs: &[io::Ev]) -> (u64, usize) {
    let mut rank = std::collections::HashMap::new();
    let mut h = 0u64;
    for e in evs {
        let n = rank.len() as u64;
        let k = *rank.entry(e.thread).or_insert(n);
        h = mix(h, mix(k, mix(e.op as u64, e.pos as u64)));
    }
    (h, rank.len())
}

pub fn c19(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let max_tex = if r.chance(1, 12) { 90 } else { 24 };
    let mut w = gen(r, &WadOpts { min_tex: 2, max_tex, max_dim: 2 });
    if r.chance(1, 5) {
        let k = r.range(1, 3) as usize;
        w.strip(r, k);
    }
    let broken = r.chance(1, 4);
    if broken {
        // some textures point outside the file: every schedule has to report it
        for _ in 0..r.range(1, 3) {
            let i = r.below(w.texs.len());
            let at = w.dir.iter().position(|d| *d == Some(i)).unwrap();
            let dir_off = u32::from_le_bytes([w.bytes[8], w.bytes[9], w.bytes[10], w.bytes[11]]) as usize;
            let e = dir_off + 32 * at;
            let head = u32::from_le_bytes([w.bytes[e], w.bytes[e + 1], w.bytes[e + 2], w.bytes[e + 3]]) as usize;
            w.bytes[head + 24..head + 28].copy_from_slice(&0x7fff_0000u32.to_le_bytes());
        }
    }
    let f = TmpFile::new(&w.bytes, "wad");
    let marker = f.0.file_name().unwrap().to_string_lossy().into_owned();
    let levels = r.range(1, w.kept as i64) as usize;
    let wl = if broken { None } else { rand_whitelist(r, &w) };
    put(ctx, &w.bytes, &format!("levels {} whitelist {:?}", levels, wl));
    ctx.sample(|| format!("{}{}", w.layout, if broken { ", broken entries" } else { "" }));
    let show = |o: &Result<Result<Vec<TextureIndexed>, String>, String>| -> Result<String, String> {
        match o {
            Ok(Ok(t)) => Ok(digest(t).1),
            Ok(Err(_)) => Ok("error".into()),
            Err(p) => Err(format!("panic: {}", p)),
        }
    };
    // the sequential reading is the reference
    let one = &pools()[0].1;
    let base_out = one.install(|| read(f.path(), &wl, levels));
    if let (Ok(Ok(t)), false) = (&base_out, broken) {
        same_as_built(&w, &selected(&w, &wl), t, levels)?;
    }
    let want = show(&base_out)?;
    ensure!(!broken || want == "error", "an archive with an entry outside the file is accepted");
    // another archive, laid out alike, that others read meanwhile
    let neighbour = if r.chance(1, 3) {
        let mut v = w.clone();
        v.reword(r);
        let g = TmpFile::new(&v.bytes, "wad");
        let out = one.install(|| read(g.path(), &wl, levels));
        if let (Ok(Ok(t)), false) = (&out, broken) {
            same_as_built(&v, &selected(&v, &wl), t, levels)?;
        }
        Some((show(&out)?, g, v))
    } else {
        None
    };
    for _ in 0..4 {
        let (n, pool) = r.pick(&pools()[1..]);
        let delay = r.chance(3, 4);
        let plan = Plan { delay, seed: r.next(), ..Plan::default() };
        let callers = *r.pick(&[1usize, 1, 2, 3]);
        let (outs, seen) = io::with_plan(&marker, plan, || {
            if callers == 1 {
                return vec![show(&pool.install(|| read(f.path(), &wl, levels)))];
            }
            let barrier = std::sync::Barrier::new(callers);
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..callers)
                    .map(|k| {
                        let (barrier, wl, f, want, neighbour) = (&barrier, &wl, &f, &want, &neighbour);
                        s.spawn(move || {
                            barrier.wait();
                            match neighbour {
                                Some((own, g, _)) if k + 1 == callers => {
                                    let o = show(&pool.install(|| read(g.path(), wl, levels)))?;
                                    // (told apart from the others: right is right)
                                    Ok(if o == *own { want.clone() } else { format!("the other archive:\n{}\nand alone:\n{}", o, own) })
                                }
                                _ => show(&pool.install(|| read(f.path(), wl, levels))),
                            }
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().expect("harness: thread")).collect()
            })
        });
        for o in outs {
            let o = o?;
            ensure!(
                o == want,
                "with {} worker threads and {} callers the archive reads differently:\n{}\nagainst one thread:\n{}",
                n, callers, o, want
            );
            ctx.count("parallel readings", 1);
        }
        let (h, threads) = interleaving(&seen.events);
        ctx.count("system calls observed", seen.calls);
        ctx.peak("threads in one reading", threads as u64);
        if callers > 1 {
            ctx.count("concurrent callers", callers as u64);
        }
        if broken {
            ctx.count("failing archives", 1);
        }
        if threads > 1 {
            ctx.count("readings by more than one thread", 1);
            ctx.fp(h);
        }
    }
    if let Some((own, _, v)) = neighbour {
        // the other one takes the place of the first
        ctx.count("archives beside one another", 1);
        std::fs::write(&f.0, &v.bytes).expect("harness: scratch");
        let (n, pool) = r.pick(pools());
        let o = show(&pool.install(|| read(f.path(), &wl, levels)))?;
        ensure!(o == own, "with {} worker threads, after another archive has been read from the same path, it reads as:\n{}\nelsewhere:\n{}", n, o, own);
    }
    Ok(())
}

// ================================================================= C20

#[derive(Debug)]
struct Ref {
    name: String,
    w: u32,
    h: u32,
    mips: Vec<Vec<u8>>,
    palette: Option<Vec<u8>>,
}

/// What the bytes of an archive say, read straight from the format. The flag
/// tells whether acceptance itself is open (degenerate or compressed entries).
fn reference(b: &[u8], wl: &Option<Vec<String>>, levels: usize) -> (Result<Vec<Ref>, String>, bool) {
    let mut open = false;
    let get = |off: u64, n: u64| -> Option<&[u8]> {
        let end = off.checked_add(n)?;
        if end > b.len() as u64 {
            None
        } else {
            Some(&b[off as usize..end as usize])
        }
    };
    let le = |s: &[u8]| u32::from_le_bytes([s[0], s[1], s[2], s[3]]);
    let h = match get(0, 12) {
        Some(h) => h,
        None => return (Err("no header".into()), false),
    };
    let wad3 = match &h[..4] {
        b"WAD2" => false,
        b"WAD3" => true,
        _ => return (Err("magic".into()), false),
    };
    let (n, dir) = (le(&h[4..]) as u64, le(&h[8..]) as u64);
    if n > 0 && get(dir, n * 32).is_none() {
        return (Err("directory outside the file".into()), false);
    }
    let mut out = vec![];
    // one character per byte, up to the terminator
    let text = |s: &[u8]| -> String { s.iter().take_while(|c| **c != 0).map(|c| *c as char).collect() };
    for k in 0..n {
        let e = get(dir + 32 * k, 32).unwrap();
        if e[12] != b'C' && e[12] != b'D' {
            continue;
        }
        if let Some(l) = wl {
            if !l.contains(&text(&e[16..32])) {
                continue;
            }
        }
        if e[13] != 0 {
            open = true;
        }
        let off = le(e) as u64;
        let m = match get(off, 40) {
            Some(m) => m,
            None => return (Err(format!("entry {}: no texture header", k)), open),
        };
        let (w, hh) = (le(&m[16..]), le(&m[20..]));
        if w == 0 || hh == 0 {
            open = true;
        }
        let mut size = w as u64 * hh as u64;
        let mut mips = vec![];
        let mut s3 = 0;
        for l in 0..4usize {
            let o = le(&m[24 + 4 * l..]) as u64;
            if l < levels {
                match get(off + o, size) {
                    Some(x) => mips.push(x.to_vec()),
                    None => return (Err(format!("entry {} level {}: outside the file", k, l)), open || size == 0),
                }
                if size == 0 {
                    open = true;
                }
            }
            s3 = size;
            size /= 4;
        }
        // rounding of odd sizes is not fixed by the format
        if w % 8 != 0 || hh % 8 != 0 {
            open = true;
        }
        let palette = if wad3 {
            match get(off + le(&m[36..]) as u64 + s3 + 2, 768) {
                Some(p) => Some(p.to_vec()),
                None => return (Err(format!("entry {}: palette outside the file", k)), open),
            }
        } else {
            None
        };
        out.push(Ref { name: text(&m[..16]).to_lowercase(), w, h: hh, mips, palette });
    }
    (Ok(out), open)
}

fn agree(got: &[TextureIndexed], want: &[Ref], levels: usize) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{} textures, the file holds {}", got.len(), want.len()));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let m = &g.mip_texture;
        if w.name != m.name || m.width != w.w || m.height != w.h {
            return Err(format!("texture {}: {} against {:?} {}x{}", i, desc(g), w.name, w.w, w.h));
        }
        for k in 0..levels {
            if level(&g.mip_data, k) != Some(&w.mips[k]) {
                return Err(format!(
                    "texture {} level {}: {:?} bytes against {} in the file",
                    i, k, level(&g.mip_data, k).map(|l| l.len()), w.mips[k].len()
                ));
            }
        }
        if g.palette.as_ref().map(pal_bytes) != w.palette {
            return Err(format!("texture {}: palette differs from the file's bytes", i));
        }
    }
    Ok(())
}

fn hostile_read(ctx: &mut Ctx, what: &str, b: &[u8], wl: &Option<Vec<String>>, levels: usize) -> Res {
    let f = TmpFile::new(b, "wad");
    let (out, peak) = io::metered(|| read(f.path(), wl, levels));
    let (want, open) = reference(b, wl, levels);
    let len = b.len() as u64;
    let bound = (8 << 20) + 6 * (len / 32 + 1) * len;
    ctx.peak("bytes of memory held", peak as u64);
    let verdict: Result<&str, String> = match (&out, &want) {
        (Err(p), _) => Err(format!("panic: {}", p)),
        (Ok(Ok(t)), Ok(w)) => agree(t, w, levels).map(|_| "read").or_else(|e| if open { Ok("read (open)") } else { Err(e) }),
        (Ok(Err(_)), Err(_)) => Ok("rejected"),
        (Ok(Err(e)), Ok(_)) => {
            if open {
                Ok("rejected (open)")
            } else {
                Err(format!("a complete archive is rejected: {}", e))
            }
        }
        (Ok(Ok(t)), Err(w)) => {
            if open {
                Ok("read (open)")
            } else {
                Err(format!("accepted with {} textures although the file is incomplete ({})", t.len(), w))
            }
        }
    };
    let verdict = match verdict {
        Ok(_) if peak as u64 > bound => Err(format!("holds {} bytes of memory for a file of {} bytes", peak, len)),
        v => v,
    };
    match verdict {
        Ok(v) => {
            ctx.count(&format!("{}: {}", what, v), 1);
            ctx.fp(mix(hash_bytes(b), levels as u64));
            Ok(())
        }
        Err(e) => {
            put(ctx, b, &format!("levels {} whitelist {:?}", levels, wl));
            Err(format!("{} (file of {} bytes, {} levels, whitelist {:?}): {}", what, len, levels, wl, e).into())
        }
    }
}

pub fn c20(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let w = gen(r, &WadOpts { min_tex: 0, max_tex: 5, max_dim: 2 });
    let levels = r.range(1, 4) as usize;
    let wl = if r.chance(2, 3) { None } else { rand_whitelist(r, &w) };
    ctx.sample(|| w.layout.clone());
    let le = |b: &[u8], at: usize| u32::from_le_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]);
    match r.below(6) {
        0 | 1 => {
            // truncated: around every boundary, and anywhere
            let mut cuts: Vec<usize> = vec![0, 1, 3, 4, 11, 12, 13];
            let dir = le(&w.bytes, 8) as usize;
            for k in 0..w.dir.len() {
                let e = dir + 32 * k;
                cuts.extend([e, e + 1, e + 31, e + 32]);
                if let Some(i) = w.dir[k] {
                    let head = le(&w.bytes, e) as usize;
                    cuts.extend([head, head + 39, head + 40]);
                    for l in 0..4 {
                        let m = head + w.texs[i].offs[l] as usize;
                        let n = m + w.texs[i].mips[l].len();
                        cuts.extend([m, m + 1, n - 1, n]);
                        if l == 3 {
                            cuts.extend([n + 1, n + 2, n + 3, n + 769, n + 770]);
                        }
                    }
                }
            }
            for _ in 0..6 {
                cuts.push(r.below(w.bytes.len() + 1));
            }
            cuts.retain(|c| *c <= w.bytes.len());
            r.shuffle(&mut cuts);
            cuts.truncate(24);
            for c in cuts {
                hostile_read(ctx, "truncated", &w.bytes[..c], &wl, levels)?;
            }
        }
        2 | 3 => {
            // one or two fields replaced
            for _ in 0..8 {
                let mut b = w.bytes.clone();
                let mut what = "header field";
                for _ in 0..r.range(1, 2) {
                    let v = match r.below(4) {
                        0 => *r.pick(&[0u32, 1, 2, 0x7fff_ffff, 0x8000_0000, u32::MAX, 0xffff_fff0, 65536]),
                        1 => r.below(b.len() + 64) as u32,
                        2 => r.below(300) as u32,
                        _ => r.next() as u32,
                    };
                    let dir = le(&w.bytes, 8) as usize;
                    let at = match r.below(4) {
                        0 => *r.pick(&[4usize, 8]),
                        1 if !w.dir.is_empty() => {
                            what = "directory field";
                            dir + 32 * r.below(w.dir.len()) + 4 * r.below(8)
                        }
                        _ if !w.texs.is_empty() => {
                            what = "texture field";
                            let i = r.below(w.texs.len());
                            let k = w.dir.iter().position(|d| *d == Some(i)).unwrap();
                            le(&w.bytes, dir + 32 * k) as usize + 16 + 4 * r.below(6)
                        }
                        _ => 4,
                    };
                    b[at..at + 4].copy_from_slice(&v.to_le_bytes());
                }
                hostile_read(ctx, what, &b, &wl, levels)?;
            }
        }
        4 => {
            for _ in 0..8 {
                let mut b = w.bytes.clone();
                for _ in 0..r.range(1, 8) {
                    let i = r.below(b.len());
                    b[i] ^= 1 << r.below(8);
                }
                hostile_read(ctx, "flipped bits", &b, &wl, levels)?;
            }
        }
        _ => {
            for _ in 0..4 {
                let n = r.below(3000);
                let mut b = rand_bytes(r, n);
                if r.chance(3, 4) && b.len() >= 12 {
                    b[..4].copy_from_slice(*r.pick(&[b"WAD2", b"WAD3"]));
                    if r.chance(3, 4) {
                        let k = r.below(40) as u32;
                        b[4..8].copy_from_slice(&k.to_le_bytes());
                        let d = r.below(b.len() + 1) as u32;
                        b[8..12].copy_from_slice(&d.to_le_bytes());
                    }
                }
                hostile_read(ctx, "random bytes", &b, &None, levels)?;
            }
            // many entries over the same big texture
            let k = r.range(1, 60) as usize;
            let mut b = b"WAD2".to_vec();
            let body = r.below(6000);
            b.extend_from_slice(&(k as u32).to_le_bytes());
            b.extend_from_slice(&12u32.to_le_bytes());
            for _ in 0..k {
                b.extend_from_slice(&((12 + 32 * k) as u32).to_le_bytes());
                b.extend_from_slice(&[0; 8]);
                b.extend_from_slice(&[b'D', 0, 0, 0]);
                b.extend_from_slice(b"same\0\0\0\0\0\0\0\0\0\0\0\0");
            }
            b.extend_from_slice(b"same\0\0\0\0\0\0\0\0\0\0\0\0");
            b.extend_from_slice(&64u32.to_le_bytes());
            b.extend_from_slice(&64u32.to_le_bytes());
            for _ in 0..4 {
                b.extend_from_slice(&40u32.to_le_bytes());
            }
            b.extend_from_slice(&rand_bytes(r, body));
            hostile_read(ctx, "many entries over one texture", &b, &None, levels)?;
            let p = match r.below(3) {
                0 => "/nonexistent/x.wad".to_string(),
                1 => sut::tmp_dir().to_string_lossy().into_owned(),
                _ => "a\0b".to_string(),
            };
            for o in [read(&p, &None, levels).map(|r| r.is_err()), sut::guarded(|| read_palette(&p).is_err())] {
                match o {
                    Ok(true) => ctx.count("unreadable paths", 1),
                    Ok(false) => return Err(format!("reading the path {:?} succeeds", p).into()),
                    Err(e) => return Err(format!("reading the path {:?}: panic {}", p, e).into()),
                }
            }
            let n = r.below(768);
            let pal = rand_bytes(r, n);
            let pf = TmpFile::new(&pal, "lmp");
            match sut::guarded(|| read_palette(pf.path()).is_err()) {
                Ok(true) => ctx.count("short palettes rejected", 1),
                Ok(false) => return Err(format!("a palette file of {} bytes is accepted", n).into()),
                Err(e) => return Err(format!("a palette file of {} bytes: panic {}", n, e).into()),
            }
        }
    }
    Ok(())
}

// ================================================================= C21

fn to_pal(b: &[u8]) -> Palette {
    let mut c = [Color(0, 0, 0); 256];
    for i in 0..256 {
        c[i] = Color(b[3 * i], b[3 * i + 1], b[3 * i + 2]);
    }
    Palette(c)
}

fn check_rgb(t: &TextureRGB, meta: &str, idx: &[Option<Vec<u8>>; 4], pal: &[u8]) -> Result<u64, String> {
    let m = &t.mip_texture;
    let d = format!("{:?} {}x{} at {:?}", m.name, m.width, m.height, [m.offset1, m.offset2, m.offset4, m.offset8]);
    if d != meta {
        return Err(format!("texture description {} became {}", meta, d));
    }
    let got = [Some(&t.mip_data.mip0), t.mip_data.mip1.as_ref(), t.mip_data.mip2.as_ref(), t.mip_data.mip3.as_ref()];
    let mut n = 0;
    for k in 0..4 {
        match (&idx[k], got[k]) {
            (None, None) => (),
            (Some(i), Some(g)) => {
                if i.len() != g.len() {
                    return Err(format!("level {}: {} pixels became {}", k, i.len(), g.len()));
                }
                for (p, (i, g)) in i.iter().zip(g).enumerate() {
                    let c = &pal[3 * *i as usize..3 * *i as usize + 3];
                    if [g.0, g.1, g.2] != c[..] {
                        return Err(format!(
                            "level {} pixel {}: index {} gives {:?}, the palette says {:?}",
                            k, p, i, [g.0, g.1, g.2], c
                        ));
                    }
                    n += 1;
                }
            }
            (a, b) => return Err(format!("level {}: present before {}, after {}", k, a.is_some(), b.is_some())),
        }
    }
    Ok(n)
}

/// Palettes out of files and byte strings, pixels out of byte strings.
fn c21_bytes(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let n = *r.pick(&[0usize, 1, 2, 3, 255, 256, 257, 766, 767, 768, 769, 770, 1024, 1536, 3000]);
    let bytes = match r.below(4) {
        // text-like, all equal, palettes of one gray
        0 => vec![*r.pick(&[0u8, 9, 10, 13, 26, 32, 127, 128, 255]); n],
        1 => (0..n).map(|i| (i / 3) as u8).collect(),
        _ => rand_bytes(r, n),
    };
    put(ctx, &bytes, "palette");
    ctx.sample(|| format!("palette of {} bytes", n));
    ctx.fp(mix(hash_bytes(&bytes), 77));
    let f = TmpFile::new(&bytes, "lmp");
    let file = sut::guarded(|| read_palette(f.path())).map_err(|p| format!("reading a palette of {} bytes panics: {}", n, p))?;
    let mem = sut::guarded(|| quarchitect::wad::palette::parser(&bytes).map(|(rest, p)| (rest.len(), p)).map_err(|_| ()))
        .map_err(|p| format!("parsing a palette of {} bytes panics: {}", n, p))?;
    ensure!(file.is_ok() == (n >= 768), "a palette file of {} bytes is accepted: {}", n, file.is_ok());
    ensure!(mem.is_ok() == (n >= 768), "palette data of {} bytes is accepted: {}", n, mem.is_ok());
    if let (Ok(a), Ok((rest, b))) = (&file, &mem) {
        ensure!(
            pal_bytes(a)[..] == bytes[..768] && pal_bytes(b)[..] == bytes[..768] && *rest == n - 768,
            "a palette of {} bytes is read with other colors, or with {} bytes left",
            n, rest
        );
        ctx.count("palettes read", 1);
    } else {
        ctx.count("short palettes refused", 1);
    }
    let want = if r.chance(1, 2) { r.below(n + 3) } else { *r.pick(&[0, n, n + 1, n + 1000]) };
    let got = sut::guarded(|| quarchitect::wad::mip_level::parser(want)(&bytes).map(|(rest, l)| (rest.len(), l.0)).map_err(|_| ()))
        .map_err(|p| format!("taking {} pixels out of {} bytes panics: {}", want, n, p))?;
    match got {
        Ok((rest, l)) => ensure!(
            want <= n && l == bytes[..want] && rest == n - want,
            "taking {} pixels out of {} bytes gives {} with {} left",
            want, n, l.len(), rest
        ),
        Err(_) => ensure!(want > n, "{} pixels cannot be taken out of {} bytes", want, n),
    }
    ctx.count("pixels taken out of bytes", 1);
    Ok(())
}

pub fn c21(ctx: &mut Ctx, r: &mut Rng) -> Res {
    if r.chance(1, 5) {
        return c21_bytes(ctx, r);
    }
    let w = gen(r, &WadOpts { min_tex: 1, max_tex: 4, max_dim: 3 });
    let levels = r.range(1, 4) as usize;
    let f = TmpFile::new(&w.bytes, "wad");
    let extra = rand_bytes(r, 768);
    put(ctx, &w.bytes, &format!("levels {}", levels));
    ctx.input("palette.lmp", &extra);
    ctx.sample(|| format!("{}, {} levels", w.layout, levels));
    let pf = TmpFile::new(&extra, "lmp");
    let ext = match sut::guarded(|| read_palette(pf.path())) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return Err(format!("a palette file of 768 bytes is refused: {}", e).into()),
        Err(p) => return Err(format!("reading a palette file panics: {}", p).into()),
    };
    let texs = match read(f.path(), &None, levels) {
        Ok(Ok(t)) => t,
        _ => return Err(Fail::Skip("archive unreadable".into())),
    };
    for (n, t) in texs.into_iter().enumerate() {
        let t = if r.chance(1, 3) {
            // built by hand: levels present in any combination
            let s = r.below(300);
            let lv = |r: &mut Rng| if r.chance(1, 2) { let n = r.below(100); Some(MipLevel::new(rand_bytes(r, n))) } else { None };
            let (a, b, c) = (lv(r), lv(r), lv(r));
            ctx.count("textures built by hand", 1);
            TextureIndexed::new(
                MipTexture {
                    name: "By Hand".into(),
                    width: r.below(1000) as u32,
                    height: 7,
                    offset1: 1,
                    offset2: 2,
                    offset4: 3,
                    offset8: 4,
                },
                MipDataIndexed { mip0: MipLevel::new(rand_bytes(r, s)), mip1: a, mip2: b, mip3: c },
                if r.chance(1, 2) { Some(to_pal(&rand_bytes(r, 768))) } else { None },
            )
        } else {
            t
        };
        let meta = desc(&t);
        let idx = [0, 1, 2, 3].map(|k| level(&t.mip_data, k).cloned());
        let own = t.palette.as_ref().map(pal_bytes);
        let given = r.chance(1, 2);
        ctx.fp(mix(hash_bytes(&idx[0].clone().unwrap()), mix(hash_bytes(&extra), given as u64)));
        if r.chance(1, 4) {
            let rgb = sut::guarded(|| TextureRGB::from_indexed(t, &ext)).map_err(|p| format!("conversion panics: {}", p))?;
            let px = check_rgb(&rgb, &meta, &idx, &extra).map_err(|e| format!("texture {} with the palette it is given: {}", n, e))?;
            ctx.count("pixels, palette given explicitly", px);
            continue;
        }
        let out = sut::guarded(|| t.into_rgb(if given { Some(ext) } else { None })).map_err(|p| format!("conversion panics: {}", p))?;
        match (out, &own, given) {
            (Ok(rgb), Some(p), _) => {
                let px = check_rgb(&rgb, &meta, &idx, p).map_err(|e| format!("texture {} with its own palette (another supplied: {}): {}", n, given, e))?;
                ctx.count("pixels, own palette", px);
            }
            (Ok(rgb), None, true) => {
                let px = check_rgb(&rgb, &meta, &idx, &extra).map_err(|e| format!("texture {} with the supplied palette: {}", n, e))?;
                ctx.count("pixels, supplied palette", px);
            }
            (Ok(_), None, false) => return Err(format!("texture {} is converted without any palette", n).into()),
            (Err(_), None, false) => ctx.count("refused without a palette", 1),
            (Err(e), _, _) => return Err(format!("texture {} is refused although there is a palette: {}", n, e).into()),
        }
    }
    Ok(())
}
