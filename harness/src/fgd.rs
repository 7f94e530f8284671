//! An independent reader for the game definition format.
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Str(String),
    Sym(char),
    Word(String),
}

pub fn lex(s: &str) -> Result<(Vec<String>, Vec<Tok>), String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut comments = vec![];
    let mut out = vec![];
    while i < c.len() {
        let ch = c[i];
        if ch.is_whitespace() {
            i += 1;
        } else if ch == '/' && c.get(i + 1) == Some(&'/') {
            let mut t = String::new();
            i += 2;
            while i < c.len() && c[i] != '\n' {
                t.push(c[i]);
                i += 1;
            }
            comments.push(t.trim().to_string());
        } else if ch == '"' {
            let mut t = String::new();
            i += 1;
            loop {
                match c.get(i) {
                    None => return Err("unterminated string".into()),
                    Some('"') => break,
                    Some(x) => t.push(*x),
                }
                i += 1;
            }
            i += 1;
            out.push(Tok::Str(t));
        } else if "()[]=:,".contains(ch) {
            out.push(Tok::Sym(ch));
            i += 1;
        } else {
            let mut t = String::new();
            while i < c.len() && !c[i].is_whitespace() && !"()[]=:,\"".contains(c[i]) {
                t.push(c[i]);
                i += 1;
            }
            out.push(Tok::Word(t));
        }
    }
    Ok((comments, out))
}

#[derive(Clone, Debug, PartialEq)]
pub struct PProp {
    pub name: String,
    pub kind: String,
    pub short: Option<String>,
    pub default: Option<Tok>,
    pub long: Option<String>,
    /// choices: (value, is it quoted, label); flags: (bit, label, on)
    pub choices: Vec<(Tok, String)>,
    pub flags: Vec<(i64, String, i64)>,
}

impl PProp {
    /// the text a level editor writes for the default
    pub fn default_text(&self) -> Option<String> {
        if self.kind == "flags" {
            return Some(self.flags.iter().filter(|f| f.2 == 1).map(|f| f.0).sum::<i64>().to_string());
        }
        match &self.default {
            Some(Tok::Str(s)) => Some(s.clone()),
            Some(Tok::Word(w)) => Some(w.clone()),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct PClass {
    pub kind: String,
    /// (name, raw argument tokens)
    pub meta: Vec<(String, Vec<Tok>)>,
    pub name: String,
    pub description: String,
    pub props: Vec<PProp>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct PFile {
    pub comments: Vec<String>,
    pub includes: Vec<String>,
    pub classes: Vec<PClass>,
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
}
impl<'a> P<'a> {
    fn peek(&self) -> Option<&'a Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Result<&'a Tok, String> {
        self.i += 1;
        self.t.get(self.i - 1).ok_or_else(|| "unexpected end".to_string())
    }
    fn sym(&mut self, c: char) -> Result<(), String> {
        match self.next()? {
            Tok::Sym(x) if *x == c => Ok(()),
            o => Err(format!("expected {:?}, found {:?} at token {}", c, o, self.i - 1)),
        }
    }
    fn is(&self, c: char) -> bool {
        self.peek() == Some(&Tok::Sym(c))
    }
    fn word(&mut self) -> Result<String, String> {
        match self.next()? {
            Tok::Word(w) => Ok(w.clone()),
            o => Err(format!("expected a word, found {:?}", o)),
        }
    }
    fn str(&mut self) -> Result<String, String> {
        match self.next()? {
            Tok::Str(w) => Ok(w.clone()),
            o => Err(format!("expected a string, found {:?}", o)),
        }
    }
    fn prop(&mut self) -> Result<PProp, String> {
        // property names may hold blanks here: words up to the parenthesis
        let mut name = self.word()?;
        while let Some(Tok::Word(w)) = self.peek() {
            name.push(' ');
            name.push_str(w);
            self.i += 1;
        }
        self.sym('(')?;
        let kind = self.word()?;
        self.sym(')')?;
        let mut p = PProp { name, kind, short: None, default: None, long: None, choices: vec![], flags: vec![] };
        // : "short" : default : "long"   — each optional, empty slots allowed
        let mut slot = 0;
        while self.is(':') {
            self.sym(':')?;
            slot += 1;
            match (slot, self.peek()) {
                (_, Some(Tok::Sym(':'))) => (),
                (1, _) => p.short = Some(self.str()?),
                (2, Some(Tok::Sym('='))) => (),
                (2, _) => p.default = Some(self.next()?.clone()),
                (3, _) => p.long = Some(self.str()?),
                _ => return Err("too many fields".into()),
            }
        }
        if self.is('=') {
            self.sym('=')?;
            self.sym('[')?;
            while !self.is(']') {
                let v = self.next()?.clone();
                self.sym(':')?;
                let l = self.str()?;
                if p.kind == "flags" {
                    self.sym(':')?;
                    let on = self.word()?.parse::<i64>().map_err(|e| e.to_string())?;
                    match v {
                        Tok::Word(w) => p.flags.push((w.parse().map_err(|_| format!("flag bit {:?}", w))?, l, on)),
                        o => return Err(format!("flag bit {:?}", o)),
                    }
                } else {
                    p.choices.push((v, l));
                }
            }
            self.sym(']')?;
        }
        Ok(p)
    }
}

pub fn parse(s: &str) -> Result<PFile, String> {
    let (comments, t) = lex(s)?;
    let mut p = P { t: &t, i: 0 };
    let mut f = PFile { comments, includes: vec![], classes: vec![] };
    while p.peek().is_some() {
        let w = p.word()?;
        if w == "@include" {
            f.includes.push(p.str()?);
            continue;
        }
        if !w.starts_with('@') {
            return Err(format!("expected a class, found {:?}", w));
        }
        let mut meta = vec![];
        while !p.is('=') {
            let n = p.word()?;
            p.sym('(')?;
            let mut args = vec![];
            while !p.is(')') {
                args.push(p.next()?.clone());
            }
            p.sym(')')?;
            meta.push((n, args));
        }
        p.sym('=')?;
        let mut name = p.word()?;
        while let Some(Tok::Word(x)) = p.peek() {
            name.push(' ');
            name.push_str(x);
            p.i += 1;
        }
        p.sym(':')?;
        let description = p.str()?;
        p.sym('[')?;
        let mut props = vec![];
        while !p.is(']') {
            props.push(p.prop()?);
        }
        p.sym(']')?;
        f.classes.push(PClass { kind: w, meta, name, description, props });
    }
    Ok(f)
}
