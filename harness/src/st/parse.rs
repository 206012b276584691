//! Parser of the ST sources of the library: everything a function body may reasonably contain.
use std::collections::HashMap;
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Void,
    Bool,
    Int(u8, bool),
    Real,
    LReal,
    Str(usize),
    WStr(usize),
    Ref(T),
    Arr(i64, i64, T),
    Generic,
}
#[derive(Debug, PartialEq)]
pub struct Ty {
    pub k: Kind,
    pub name: String,
}
pub type T = &'static Ty;
impl Ty {
    pub fn size(&self) -> usize {
        match &self.k {
            Kind::Void | Kind::Generic => 0,
            Kind::Bool => 1,
            Kind::Int(b, _) => *b as usize / 8,
            Kind::Real => 4,
            Kind::LReal | Kind::Ref(_) => 8,
            Kind::Str(n) => n + 1,
            Kind::WStr(n) => 2 * (n + 1),
            Kind::Arr(lo, hi, t) => (hi - lo + 1).max(0) as usize * t.size(),
        }
    }
    pub fn is_text(&self) -> bool {
        matches!(self.k, Kind::Str(_) | Kind::WStr(_))
    }
    pub fn is_aggregate(&self) -> bool {
        self.is_text() || matches!(self.k, Kind::Arr(..))
    }
    pub fn is_int(&self) -> bool {
        matches!(self.k, Kind::Int(..))
    }
    pub fn is_float(&self) -> bool {
        matches!(self.k, Kind::Real | Kind::LReal)
    }
}

static TYPES: Mutex<Option<HashMap<String, T>>> = Mutex::new(None);

pub fn intern(k: Kind, name: &str) -> T {
    let key = format!("{name}|{k:?}");
    let mut g = TYPES.lock().unwrap();
    g.get_or_insert_with(HashMap::new).entry(key).or_insert_with(|| Box::leak(Box::new(Ty { k, name: name.to_string() })))
}

/// Elementary types; the long names are aliases.
pub fn elementary(n: &str) -> Option<T> {
    use Kind::*;
    let n = n.to_ascii_uppercase();
    Some(match n.as_str() {
        "BOOL" => intern(Bool, "BOOL"),
        "BYTE" => intern(Int(8, false), "BYTE"),
        "WORD" => intern(Int(16, false), "WORD"),
        "DWORD" => intern(Int(32, false), "DWORD"),
        "LWORD" => intern(Int(64, false), "LWORD"),
        "SINT" => intern(Int(8, true), "SINT"),
        "USINT" => intern(Int(8, false), "USINT"),
        "INT" => intern(Int(16, true), "INT"),
        "UINT" => intern(Int(16, false), "UINT"),
        "DINT" => intern(Int(32, true), "DINT"),
        "UDINT" => intern(Int(32, false), "UDINT"),
        "LINT" => intern(Int(64, true), "LINT"),
        "ULINT" => intern(Int(64, false), "ULINT"),
        "CHAR" => intern(Int(8, false), "CHAR"),
        "WCHAR" => intern(Int(16, false), "WCHAR"),
        "TIME" | "LTIME" => intern(Int(64, true), "TIME"),
        "DATE" | "LDATE" => intern(Int(64, true), "DATE"),
        "TIME_OF_DAY" | "TOD" | "LTOD" => intern(Int(64, true), "TIME_OF_DAY"),
        "DATE_AND_TIME" | "DT" | "LDT" => intern(Int(64, true), "DATE_AND_TIME"),
        "REAL" => intern(Real, "REAL"),
        "LREAL" => intern(LReal, "LREAL"),
        "STRING" => intern(Str(80), "STRING"),
        "WSTRING" => intern(WStr(80), "WSTRING"),
        _ => return None,
    })
}
pub fn void() -> T {
    intern(Kind::Void, "")
}
pub fn text(wide: bool, n: usize) -> T {
    if wide { intern(Kind::WStr(n), "WSTRING") } else { intern(Kind::Str(n), "STRING") }
}
pub fn reference(t: T) -> T {
    intern(Kind::Ref(t), "REF")
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Num(String),
    Str(Vec<u16>, bool),
    Op(&'static str),
    Pragma(String),
}

const OPS: &[&str] = &[":=", "=>", "<>", "<=", ">=", "**", "...", "..", "(", ")", "[", "]", ",", ";", ":", "=", "<", ">", "+", "-", "*", "/", "&", "^", ".", "#", "%"];

fn lex(t: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = t.chars().collect();
    let mut o = vec![];
    let mut i = 0;
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    'next: while i < c.len() {
        let x = c[i];
        if x.is_whitespace() || x == '\u{feff}' {
            i += 1;
            continue;
        }
        if x == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1
            }
            continue;
        }
        if (x == '(' || x == '/') && at(i + 1) == '*' {
            let (open, close) = if x == '(' { (['(', '*'], ['*', ')']) } else { (['/', '*'], ['*', '/']) };
            let mut depth = 0;
            while i < c.len() {
                if [at(i), at(i + 1)] == open {
                    depth += 1;
                    i += 2;
                } else if [at(i), at(i + 1)] == close {
                    depth -= 1;
                    i += 2;
                    if depth == 0 {
                        break;
                    }
                } else {
                    i += 1;
                }
            }
            continue;
        }
        if x == '{' {
            let mut s = String::new();
            i += 1;
            while i < c.len() && c[i] != '}' {
                s.push(c[i]);
                i += 1;
            }
            i += 1;
            o.push(Tok::Pragma(s.trim().to_ascii_lowercase()));
            continue;
        }
        if x.is_ascii_alphabetic() || x == '_' {
            let mut s = String::new();
            while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                s.push(c[i].to_ascii_uppercase());
                i += 1;
            }
            o.push(Tok::Id(s));
            continue;
        }
        if x.is_ascii_digit() {
            let mut s = String::new();
            while at(i).is_ascii_alphanumeric() || at(i) == '_' || (at(i) == '.' && at(i + 1).is_ascii_digit() && !s.contains('#')) || (at(i) == '#' && at(i + 1).is_ascii_alphanumeric())
                || ((at(i) == '+' || at(i) == '-') && s.ends_with(['e', 'E']) && s.contains('.'))
            {
                if c[i] != '_' {
                    s.push(c[i]);
                }
                i += 1;
            }
            o.push(Tok::Num(s));
            continue;
        }
        if x == '\'' || x == '"' {
            let mut s: Vec<u16> = vec![];
            i += 1;
            while i < c.len() && c[i] != x {
                if c[i] == '$' {
                    i += 1;
                    let wide = x == '"';
                    let n = if wide { 4 } else { 2 };
                    let hex: String = (0..n).map(|k| at(i + k)).collect();
                    if let Ok(v) = u16::from_str_radix(&hex, 16) {
                        s.push(v);
                        i += n;
                        continue;
                    }
                    s.push(match at(i) {
                        'L' | 'l' | 'N' | 'n' => 10,
                        'R' | 'r' => 13,
                        'T' | 't' => 9,
                        'P' | 'p' => 12,
                        k => k as u16,
                    });
                    i += 1;
                    continue;
                }
                let mut b = [0; 2];
                s.extend_from_slice(c[i].encode_utf16(&mut b));
                i += 1;
            }
            i += 1;
            o.push(Tok::Str(s, x == '"'));
            continue;
        }
        for p in OPS {
            if p.chars().enumerate().all(|(k, q)| at(i + k) == q) {
                o.push(Tok::Op(p));
                i += p.len();
                continue 'next;
            }
        }
        return Err(format!("unexpected character {x:?}"));
    }
    Ok(o)
}

#[derive(Clone, Debug)]
pub enum E {
    Int(i128, Option<T>),
    Real(f64, Option<T>),
    Text(Vec<u16>, bool),
    Var(usize),
    Global(String),
    Bit(Box<E>, u32),
    Part(Box<E>, u32, u32),
    Index(Box<E>, Box<E>),
    Deref(Box<E>),
    Addr(Box<E>),
    Neg(Box<E>),
    Not(Box<E>),
    Bin(&'static str, Box<E>, Box<E>),
    Call(String, Vec<(Option<String>, E)>),
    Cast(T, Box<E>),
}
#[derive(Clone, Debug)]
pub enum S {
    Assign(E, E),
    Expr(E),
    If(Vec<(E, Vec<S>)>, Vec<S>),
    Case(E, Vec<(Vec<(E, Option<E>)>, Vec<S>)>, Vec<S>),
    For(E, E, E, Option<E>, Vec<S>),
    While(E, Vec<S>),
    Repeat(Vec<S>, E),
    Return,
    Exit,
    Continue,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pass {
    Value,
    Ref,
    InOut,
    Out,
    Local,
    Return,
}
#[derive(Clone, Debug)]
pub struct Var {
    pub name: String,
    pub ty: T,
    pub pass: Pass,
    /// name of the type parameter
    pub generic: Option<String>,
    /// a variadic list (true: preceded by its length)
    pub variadic: Option<bool>,
    pub init: Option<E>,
}
#[derive(Clone, Debug)]
pub struct Pou {
    pub name: String,
    pub external: bool,
    pub block: bool,
    pub generics: Vec<String>,
    pub ret: T,
    pub ret_generic: Option<String>,
    pub vars: Vec<Var>,
    pub body: Vec<S>,
    /// slot of the return variable
    pub ret_slot: usize,
}
#[derive(Default)]
pub struct Lib {
    pub pous: HashMap<String, Pou>,
    pub consts: HashMap<String, (T, E)>,
    /// global variables defined elsewhere
    pub externals: Vec<(String, T)>,
    /// functions which are not understood, and why
    pub unknown: HashMap<String, String>,
}

struct Parser<'a> {
    t: Vec<Tok>,
    i: usize,
    lib: &'a mut Lib,
    vars: Vec<Var>,
    generics: Vec<String>,
}

type R<X> = Result<X, String>;

pub fn parse_dir(dir: &str) -> R<Lib> {
    let mut lib = Lib::default();
    let mut files: Vec<_> = std::fs::read_dir(dir).map_err(|e| format!("{dir}: {e}"))?.flatten().map(|f| f.path()).filter(|p| p.extension().is_some_and(|e| e.eq_ignore_ascii_case("st"))).collect();
    files.sort();
    let mut toks = vec![];
    for f in &files {
        let t = std::fs::read(f).map_err(|e| e.to_string())?;
        toks.push((f.display().to_string(), lex(&String::from_utf8_lossy(&t)).map_err(|e| format!("{}: {e}", f.display()))?));
    }
    // constants first: they are used in the types of any file
    for constants in [true, false] {
        for (f, t) in &toks {
            let mut p = Parser { t: t.clone(), i: 0, lib: &mut lib, vars: vec![], generics: vec![] };
            p.file(constants).map_err(|e| format!("{f}: {e} at token {} {:?}", p.i, &p.t[p.i.saturating_sub(3)..(p.i + 5).min(p.t.len())]))?;
        }
    }
    Ok(lib)
}

/// Adds the functions of a source text.
pub fn parse_text(lib: &mut Lib, text: &str) -> R<()> {
    let t = lex(text)?;
    let mut p = Parser { t, i: 0, lib, vars: vec![], generics: vec![] };
    p.file(false).map_err(|e| format!("{e} at token {}", p.i))
}

impl Parser<'_> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn is(&self, op: &str) -> bool {
        matches!(self.peek(), Some(Tok::Op(o)) if *o == op)
    }
    fn kw(&self, k: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(o)) if o == k)
    }
    fn eat(&mut self, op: &str) -> bool {
        let r = self.is(op);
        self.i += r as usize;
        r
    }
    fn eat_kw(&mut self, k: &str) -> bool {
        let r = self.kw(k);
        self.i += r as usize;
        r
    }
    fn need(&mut self, op: &str) -> R<()> {
        if self.eat(op) { Ok(()) } else { Err(format!("expected {op}")) }
    }
    fn need_kw(&mut self, k: &str) -> R<()> {
        if self.eat_kw(k) { Ok(()) } else { Err(format!("expected {k}")) }
    }
    fn id(&mut self) -> R<String> {
        match self.peek() {
            Some(Tok::Id(s)) => {
                let s = s.clone();
                self.i += 1;
                Ok(s)
            }
            _ => Err("expected a name".into()),
        }
    }
    fn file(&mut self, constants: bool) -> R<()> {
        let mut external = false;
        while let Some(t) = self.peek() {
            match t.clone() {
                Tok::Pragma(p) => {
                    external |= p == "external";
                    self.i += 1;
                }
                Tok::Op(";") => self.i += 1,
                Tok::Id(k) => match k.as_str() {
                    "VAR_GLOBAL" => {
                        self.i += 1;
                        self.globals(constants, external)?;
                        external = false;
                    }
                    "FUNCTION" | "FUNCTION_BLOCK" | "PROGRAM" => {
                        self.i += 1;
                        if constants {
                            let end = format!("END_{k}");
                            while self.peek().is_some() && !self.eat_kw(&end) {
                                self.i += 1
                            }
                        } else {
                            let start = self.i;
                            if let Err(e) = self.pou(k != "FUNCTION", external) {
                                // a function this parser does not understand is not judged
                                let near = format!("{:?}", &self.t[self.i.saturating_sub(3)..(self.i + 3).min(self.t.len())]);
                                self.i = start;
                                if let Ok(n) = self.id() {
                                    self.lib.unknown.insert(n, format!("{e} near {near}"));
                                }
                                let end = format!("END_{k}");
                                while self.peek().is_some() && !self.eat_kw(&end) {
                                    self.i += 1
                                }
                            }
                        }
                        external = false;
                    }
                    // types and the like: what uses them is not understood either
                    _ => self.i += 1,
                },
                _ => self.i += 1,
            }
        }
        Ok(())
    }
    fn globals(&mut self, constants: bool, external: bool) -> R<()> {
        while matches!(self.peek(), Some(Tok::Id(k)) if matches!(k.as_str(), "CONSTANT" | "RETAIN" | "NON_RETAIN")) {
            self.i += 1;
        }
        while !self.eat_kw("END_VAR") {
            let mut names = vec![self.id()?];
            while self.eat(",") {
                names.push(self.id()?);
            }
            self.need(":")?;
            let (ty, _) = self.ty()?;
            let init = if self.eat(":=") { Some(self.expr()?) } else { None };
            self.need(";")?;
            if constants {
                for n in names {
                    match &init {
                        Some(e) => {
                            self.lib.consts.insert(n, (ty, e.clone()));
                        }
                        None if external => self.lib.externals.push((n, ty)),
                        None => {}
                    }
                }
            }
        }
        Ok(())
    }
    fn constant(&self, e: &E) -> R<i64> {
        match e {
            E::Int(v, _) => Ok(*v as i64),
            E::Global(n) => match self.lib.consts.get(n) {
                Some((_, e)) => self.constant(&e.clone()),
                None => Err(format!("unknown constant {n}")),
            },
            E::Neg(e) => Ok(-self.constant(e)?),
            E::Bin(o, a, b) => {
                let (a, b) = (self.constant(a)?, self.constant(b)?);
                Ok(match *o {
                    "+" => a + b,
                    "-" => a - b,
                    "*" => a * b,
                    _ => return Err("constant expression".into()),
                })
            }
            _ => Err("constant expression".into()),
        }
    }
    /// A type, and the name of the type parameter.
    fn ty(&mut self) -> R<(T, Option<String>)> {
        let n = self.id()?;
        if n == "REF_TO" || n == "POINTER" {
            if n == "POINTER" {
                self.need_kw("TO")?;
            }
            let (t, _) = self.ty()?;
            return Ok((reference(t), None));
        }
        if n == "ARRAY" {
            self.need("[")?;
            let lo = self.expr()?;
            self.need("..")?;
            let hi = self.expr()?;
            self.need("]")?;
            self.need_kw("OF")?;
            let (t, _) = self.ty()?;
            return Ok((intern(Kind::Arr(self.constant(&lo)?, self.constant(&hi)?, t), "ARRAY"), None));
        }
        if self.generics.contains(&n) {
            return Ok((intern(Kind::Generic, &n), Some(n)));
        }
        let t = elementary(&n).ok_or_else(|| format!("unknown type {n}"))?;
        if t.is_text() && (self.is("[") || self.is("(")) {
            let close = if self.is("[") { "]" } else { ")" };
            self.i += 1;
            let e = self.expr()?;
            self.need(close)?;
            let n = self.constant(&e)? as usize;
            return Ok((text(matches!(t.k, Kind::WStr(_)), n), None));
        }
        Ok((t, None))
    }
    fn pou(&mut self, block: bool, external: bool) -> R<()> {
        let name = self.id()?;
        self.vars = vec![];
        self.generics = vec![];
        if self.eat("<") {
            loop {
                let g = self.id()?;
                self.generics.push(g);
                if self.eat(":") {
                    self.id()?;
                }
                if !self.eat(",") {
                    break;
                }
            }
            self.need(">")?;
        }
        let (ret, ret_generic) = if self.eat(":") { self.ty()? } else { (void(), None) };
        loop {
            let Some(Tok::Id(k)) = self.peek().cloned() else { break };
            let mut pass = match k.as_str() {
                "VAR_INPUT" => Pass::Value,
                "VAR_OUTPUT" => Pass::Out,
                "VAR_IN_OUT" => Pass::InOut,
                "VAR" | "VAR_TEMP" => Pass::Local,
                _ => break,
            };
            self.i += 1;
            while matches!(self.peek(), Some(Tok::Pragma(_))) || self.kw("CONSTANT") || self.kw("RETAIN") {
                if self.peek() == Some(&Tok::Pragma("ref".into())) {
                    pass = Pass::Ref;
                }
                self.i += 1;
            }
            while !self.eat_kw("END_VAR") {
                let mut names = vec![self.id()?];
                while self.eat(",") {
                    names.push(self.id()?);
                }
                self.need(":")?;
                let sized = matches!(self.peek(), Some(Tok::Pragma(p)) if p == "sized");
                if matches!(self.peek(), Some(Tok::Pragma(_))) {
                    self.i += 1;
                }
                let (ty, generic) = self.ty()?;
                let variadic = self.eat("...").then_some(sized);
                let init = if self.eat(":=") { Some(self.expr()?) } else { None };
                if !self.kw("END_VAR") {
                    self.need(";")?;
                }
                for n in names {
                    self.vars.push(Var { name: n, ty, pass, generic: generic.clone(), variadic, init: init.clone() });
                }
            }
        }
        let ret_slot = self.vars.len();
        self.vars.push(Var { name: name.clone(), ty: ret, pass: Pass::Return, generic: ret_generic.clone(), variadic: None, init: None });
        let end = if block { if self.t[..self.i].iter().rev().any(|t| matches!(t, Tok::Id(k) if k == "PROGRAM")) { "END_PROGRAM" } else { "END_FUNCTION_BLOCK" } } else { "END_FUNCTION" };
        let body = if external || block {
            // bodies of external functions are ignored, those of function blocks are not interpreted
            while self.peek().is_some() && !self.kw(end) && !self.kw("END_FUNCTION_BLOCK") {
                self.i += 1
            }
            vec![]
        } else {
            self.block(&[end])?
        };
        if !self.eat_kw(end) {
            self.need_kw("END_FUNCTION_BLOCK")?;
        }
        let p = Pou { name: name.clone(), external, block, generics: std::mem::take(&mut self.generics), ret, ret_generic, vars: std::mem::take(&mut self.vars), body, ret_slot };
        self.lib.pous.insert(name, p);
        Ok(())
    }
    fn block(&mut self, ends: &[&str]) -> R<Vec<S>> {
        let mut v = vec![];
        loop {
            while self.eat(";") {}
            match self.peek() {
                None => return Err(format!("expected one of {ends:?}")),
                Some(Tok::Id(k)) if ends.contains(&k.as_str()) => return Ok(v),
                Some(Tok::Pragma(_)) => self.i += 1,
                _ => v.push(self.stmt()?),
            }
        }
    }
    fn stmt(&mut self) -> R<S> {
        if self.eat_kw("IF") {
            let mut arms = vec![];
            let c = self.expr()?;
            self.need_kw("THEN")?;
            arms.push((c, self.block(&["ELSIF", "ELSE", "END_IF"])?));
            let mut other = vec![];
            loop {
                if self.eat_kw("ELSIF") {
                    let c = self.expr()?;
                    self.need_kw("THEN")?;
                    arms.push((c, self.block(&["ELSIF", "ELSE", "END_IF"])?));
                } else if self.eat_kw("ELSE") {
                    other = self.block(&["END_IF"])?;
                } else {
                    self.need_kw("END_IF")?;
                    return Ok(S::If(arms, other));
                }
            }
        }
        if self.eat_kw("CASE") {
            let sel = self.expr()?;
            self.need_kw("OF")?;
            let mut arms: Vec<(Vec<(E, Option<E>)>, Vec<S>)> = vec![];
            let mut other = vec![];
            loop {
                while self.eat(";") {}
                if self.eat_kw("END_CASE") {
                    return Ok(S::Case(sel, arms, other));
                }
                if self.eat_kw("ELSE") {
                    other = self.block(&["END_CASE"])?;
                    continue;
                }
                let mut labels = vec![];
                loop {
                    let a = self.expr()?;
                    let b = if self.eat("..") { Some(self.expr()?) } else { None };
                    labels.push((a, b));
                    if !self.eat(",") {
                        break;
                    }
                }
                self.need(":")?;
                let mut body = vec![];
                // until the next label
                loop {
                    while self.eat(";") {}
                    if self.kw("END_CASE") || self.kw("ELSE") || self.label_ahead() {
                        break;
                    }
                    body.push(self.stmt()?);
                }
                arms.push((labels, body));
            }
        }
        if self.eat_kw("FOR") {
            let v = self.unary()?;
            self.need(":=")?;
            let a = self.expr()?;
            self.need_kw("TO")?;
            let b = self.expr()?;
            let by = if self.eat_kw("BY") { Some(self.expr()?) } else { None };
            self.need_kw("DO")?;
            let body = self.block(&["END_FOR"])?;
            self.i += 1;
            return Ok(S::For(v, a, b, by, body));
        }
        if self.eat_kw("WHILE") {
            let c = self.expr()?;
            self.need_kw("DO")?;
            let body = self.block(&["END_WHILE"])?;
            self.i += 1;
            return Ok(S::While(c, body));
        }
        if self.eat_kw("REPEAT") {
            let body = self.block(&["UNTIL"])?;
            self.i += 1;
            let c = self.expr()?;
            self.need_kw("END_REPEAT")?;
            return Ok(S::Repeat(body, c));
        }
        for (k, s) in [("RETURN", S::Return), ("EXIT", S::Exit), ("CONTINUE", S::Continue)] {
            if self.eat_kw(k) {
                self.need(";")?;
                return Ok(s);
            }
        }
        let e = self.expr()?;
        let s = if self.eat(":=") { S::Assign(e, self.expr()?) } else { S::Expr(e) };
        self.need(";")?;
        Ok(s)
    }
    fn label_ahead(&self) -> bool {
        // a constant or number followed by ':', ',' or '..'
        let mut k = self.i;
        if matches!(self.t.get(k), Some(Tok::Op("-"))) {
            k += 1;
        }
        if !matches!(self.t.get(k), Some(Tok::Num(_) | Tok::Id(_) | Tok::Str(..))) {
            return false;
        }
        matches!(self.t.get(k + 1), Some(Tok::Op(":" | "," | "..")))
    }
    pub fn expr(&mut self) -> R<E> {
        self.binary(0)
    }
    fn binary(&mut self, level: usize) -> R<E> {
        const LEVELS: &[&[&str]] = &[&["OR", "OR_ELSE"], &["XOR"], &["AND", "&", "AND_THEN"], &["=", "<>"], &["<", ">", "<=", ">="], &["+", "-"], &["*", "/", "MOD"], &["**"]];
        if level == LEVELS.len() {
            return self.unary();
        }
        let mut a = self.binary(level + 1)?;
        'more: loop {
            for o in LEVELS[level] {
                let hit = if o.as_bytes()[0].is_ascii_alphabetic() { self.eat_kw(o) } else { self.eat(o) };
                if hit {
                    let b = self.binary(level + 1)?;
                    a = E::Bin(o, Box::new(a), Box::new(b));
                    continue 'more;
                }
            }
            return Ok(a);
        }
    }
    fn unary(&mut self) -> R<E> {
        if self.eat("-") {
            let e = self.unary()?;
            return Ok(match e {
                E::Int(v, t) => E::Int(-v, t),
                E::Real(v, t) => E::Real(-v, t),
                e => E::Neg(Box::new(e)),
            });
        }
        if self.eat("+") {
            return self.unary();
        }
        if self.eat_kw("NOT") {
            return Ok(E::Not(Box::new(self.unary()?)));
        }
        if self.eat("&") {
            return Ok(E::Addr(Box::new(self.unary()?)));
        }
        let mut e = self.primary()?;
        loop {
            if self.eat("^") {
                e = E::Deref(Box::new(e));
            } else if self.eat("[") {
                let i = self.expr()?;
                self.need("]")?;
                e = E::Index(Box::new(e), Box::new(i));
            } else if self.is(".") {
                self.i += 1;
                if self.eat("%") {
                    let n = self.id()?;
                    let (w, k) = n.split_at(1);
                    let w = match w {
                        "X" => 1,
                        "B" => 8,
                        "W" => 16,
                        "D" => 32,
                        _ => return Err("access".into()),
                    };
                    let k: u32 = k.parse().map_err(|_| "access".to_string())?;
                    e = if w == 1 { E::Bit(Box::new(e), k) } else { E::Part(Box::new(e), w, k) };
                } else if let Some(Tok::Num(n)) = self.peek().cloned() {
                    self.i += 1;
                    e = E::Bit(Box::new(e), n.parse().map_err(|_| "bit".to_string())?);
                } else {
                    return Err("access to a member".into());
                }
            } else {
                return Ok(e);
            }
        }
    }
    fn number(n: &str, t: Option<T>) -> R<E> {
        if let Some((b, d)) = n.split_once('#') {
            let b: u32 = b.parse().map_err(|_| format!("number {n}"))?;
            return Ok(E::Int(i128::from_str_radix(d, b).map_err(|_| format!("number {n}"))?, t));
        }
        if n.contains(['.', 'e', 'E']) || t.is_some_and(|t| t.is_float()) {
            return Ok(E::Real(n.parse().map_err(|_| format!("number {n}"))?, t));
        }
        Ok(E::Int(n.parse().map_err(|_| format!("number {n}"))?, t))
    }
    fn primary(&mut self) -> R<E> {
        match self.peek().cloned() {
            Some(Tok::Op("(")) => {
                self.i += 1;
                let e = self.expr()?;
                self.need(")")?;
                Ok(e)
            }
            Some(Tok::Num(n)) => {
                self.i += 1;
                Self::number(&n, None)
            }
            Some(Tok::Str(s, w)) => {
                self.i += 1;
                Ok(E::Text(s, w))
            }
            Some(Tok::Id(n)) => {
                self.i += 1;
                if n == "TRUE" || n == "FALSE" {
                    return Ok(E::Int((n == "TRUE") as i128, elementary("BOOL")));
                }
                if n == "NULL" {
                    return Ok(E::Int(0, Some(reference(void()))));
                }
                if self.eat("#") {
                    let t = elementary(&n).ok_or_else(|| format!("unknown type {n}"))?;
                    let neg = self.eat("-");
                    return match self.peek().cloned() {
                        Some(Tok::Num(k)) => {
                            self.i += 1;
                            if matches!(t.name.as_str(), "TIME" | "DATE" | "TIME_OF_DAY" | "DATE_AND_TIME") {
                                return Err("time literal".into());
                            }
                            Ok(match Self::number(&k, Some(t))? {
                                E::Int(v, t) => E::Int(if neg { -v } else { v }, t),
                                E::Real(v, t) => E::Real(if neg { -v } else { v }, t),
                                e => e,
                            })
                        }
                        Some(Tok::Str(s, _)) if s.len() == 1 => {
                            self.i += 1;
                            Ok(E::Int(s[0] as i128, Some(t)))
                        }
                        _ => Ok(E::Cast(t, Box::new(self.primary()?))),
                    };
                }
                if self.is("(") {
                    self.i += 1;
                    let mut args = vec![];
                    while !self.eat(")") {
                        let named = match (self.peek(), self.t.get(self.i + 1)) {
                            (Some(Tok::Id(k)), Some(Tok::Op(":=" | "=>"))) => Some(k.clone()),
                            _ => None,
                        };
                        if named.is_some() {
                            self.i += 2;
                        }
                        let e = self.expr()?;
                        args.push((named, e));
                        if !self.eat(",") {
                            self.need(")")?;
                            break;
                        }
                    }
                    return Ok(E::Call(n, args));
                }
                // the return variable has the name of the function: resolved when linking
                if let Some(k) = self.vars.iter().position(|v| v.name == n) {
                    return Ok(E::Var(k));
                }
                Ok(E::Global(n))
            }
            t => Err(format!("unexpected {t:?} in an expression")),
        }
    }
}
