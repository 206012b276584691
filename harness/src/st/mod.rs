//! Interpreter of the library's ST functions, with memory that notices accesses beyond a variable. What
//! is declared {external} is called in the library, by the declaration, as the compiler would do.
pub mod parse;
pub mod syms;
use crate::call::call;
pub use parse::*;

/// Why an execution did not end with a result.
#[derive(Debug, Clone, PartialEq)]
pub enum Stop {
    /// the library refused the call (panic)
    Refused,
    /// the value of a floating point number does not fit the integer type: not specified
    Unspecified,
    /// access outside of a variable
    Memory(String),
    /// no such function in the library
    Missing(String),
    /// beyond what the interpreter knows
    Unsupported(String),
    Endless,
}
type R<X> = Result<X, Stop>;

fn no<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Unsupported(s.into()))
}

#[derive(Clone, Copy, Debug)]
pub enum V {
    I(i128),
    F(f64),
    /// address of a text or an array
    A(usize),
}
#[derive(Clone, Copy, Debug)]
pub struct Val {
    pub t: T,
    pub v: V,
}

/// Wraps an integer to a type.
pub fn wrap(v: i128, t: &Ty) -> i128 {
    match t.k {
        Kind::Int(b, true) => (v << (128 - b)) >> (128 - b),
        Kind::Int(b, false) => v & ((1i128 << b) - 1),
        Kind::Bool => v & 1,
        _ => v,
    }
}

fn convert(v: Val, t: T) -> R<Val> {
    if v.t == t {
        return Ok(v);
    }
    let r = match (&t.k, v.v) {
        (Kind::Int(..) | Kind::Bool, V::I(x)) => V::I(wrap(x, t)),
        (Kind::Real, V::I(x)) => V::F(x as f32 as f64),
        (Kind::LReal, V::I(x)) => V::F(x as f64),
        (Kind::Real, V::F(x)) => V::F(x as f32 as f64),
        (Kind::LReal, V::F(x)) => V::F(x),
        (Kind::Int(b, s), V::F(x)) => {
            let x = x.trunc();
            let (lo, hi) = if *s { (-(2f64.powi(*b as i32 - 1)), 2f64.powi(*b as i32 - 1)) } else { (0.0, 2f64.powi(*b as i32)) };
            if !(x >= lo && x < hi) {
                return Err(Stop::Unspecified);
            }
            V::I(x as i128)
        }
        (Kind::Ref(_), V::I(x)) if matches!(v.t.k, Kind::Ref(_)) => V::I(x),
        _ => return no(format!("conversion of {} to {}", v.t.name, t.name)),
    };
    Ok(Val { t, v: r })
}

const GAP: usize = 64;
const TEXT_GAP: usize = 512;
const CANARY: u8 = 0xd7;

/// A value handed to a function from outside.
#[derive(Clone, Debug)]
pub enum Arg<'a> {
    I(i128),
    F(f64),
    /// a text with terminator in a variable of the given length
    S(&'a [u8], usize),
    W(&'a [u16], usize),
    /// a variable for VAR_IN_OUT and VAR_OUTPUT
    Out,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    I(i128),
    F(f64),
    S(Vec<u8>),
    W(Vec<u16>),
    None,
}

pub struct Machine<'a> {
    pub lib: &'a Lib,
    mem: Vec<u8>,
    sp: usize,
    /// live variables (offset, size), ascending
    regions: Vec<(usize, usize)>,
    steps: u64,
    depth: usize,
    /// calls of external functions made
    pub externals: u64,
    /// named arguments of calls of generic functions are resolved in the declaration of the instance
    pub names_of_instance: bool,
}

enum Flow {
    Next,
    Return,
    Exit,
    Continue,
}
struct Frame<'p> {
    p: &'p Pou,
    /// address of every variable (of what a by-reference parameter refers to)
    at: Vec<usize>,
    ty: Vec<T>,
}

impl<'a> Machine<'a> {
    pub fn new(lib: &'a Lib) -> Machine<'a> {
        Machine { lib, mem: vec![CANARY; 1 << 20], sp: 0, regions: vec![], steps: 0, depth: 0, externals: 0, names_of_instance: false }
    }
    fn base(&self) -> usize {
        self.mem.as_ptr() as usize
    }
    /// A variable, zeroed; everything between variables is a canary.
    fn alloc(&mut self, t: T) -> R<usize> {
        let n = t.size();
        let gap = if t.is_aggregate() { TEXT_GAP } else { GAP };
        if self.sp + n + 2 * gap + 32 > self.mem.len() {
            return no("memory of the interpreter");
        }
        // in front: a small gap; behind: the whole one
        let at = (self.sp + GAP + 15) & !15;
        let end = at + n + gap;
        self.mem[self.sp..at].fill(CANARY);
        self.mem[at..at + n].fill(0);
        self.mem[at + n..end].fill(CANARY);
        self.sp = end;
        self.regions.push((at, n));
        Ok(self.base() + at)
    }
    fn gaps_intact(&self, from: usize) -> R<()> {
        for k in from..self.regions.len() {
            let (at, n) = self.regions[k];
            let start = if k == 0 { 0 } else { self.regions[k - 1].0 + self.regions[k - 1].1 };
            let end = if k + 1 < self.regions.len() { self.regions[k + 1].0 } else { self.sp };
            if self.mem[start..at].iter().chain(&self.mem[at + n..end]).any(|b| *b != CANARY) {
                return Err(Stop::Memory(format!("written outside of a variable of {n} bytes")));
            }
        }
        Ok(())
    }
    fn release(&mut self, sp: usize, regions: usize) {
        self.regions.truncate(regions);
        self.sp = sp;
    }
    fn accessible(&self, a: usize, n: usize) -> R<()> {
        let o = a.wrapping_sub(self.base());
        let k = self.regions.partition_point(|r| r.0 <= o);
        if k > 0 {
            let (at, size) = self.regions[k - 1];
            if o >= at && o + n <= at + size {
                return Ok(());
            }
            if o < at + size {
                return Err(Stop::Memory(format!("{n} bytes accessed in a variable of {size} bytes")));
            }
        }
        Err(Stop::Memory(format!("access of {n} bytes outside of the variables")))
    }
    fn load(&self, a: usize, t: T) -> R<Val> {
        self.accessible(a, t.size())?;
        let p = a as *const u8;
        let v = unsafe {
            match &t.k {
                Kind::Bool => V::I((*p != 0) as i128),
                Kind::Int(8, true) => V::I(*(p as *const i8) as i128),
                Kind::Int(8, false) => V::I(*p as i128),
                Kind::Int(16, true) => V::I((p as *const i16).read_unaligned() as i128),
                Kind::Int(16, false) => V::I((p as *const u16).read_unaligned() as i128),
                Kind::Int(32, true) => V::I((p as *const i32).read_unaligned() as i128),
                Kind::Int(32, false) => V::I((p as *const u32).read_unaligned() as i128),
                Kind::Int(_, true) => V::I((p as *const i64).read_unaligned() as i128),
                Kind::Int(_, false) => V::I((p as *const u64).read_unaligned() as i128),
                Kind::Ref(_) => V::I((p as *const u64).read_unaligned() as i128),
                Kind::Real => V::F((p as *const f32).read_unaligned() as f64),
                Kind::LReal => V::F((p as *const f64).read_unaligned()),
                Kind::Str(_) | Kind::WStr(_) | Kind::Arr(..) => V::A(a),
                _ => return no("value of this type"),
            }
        };
        Ok(Val { t, v })
    }
    fn store(&mut self, a: usize, t: T, v: Val) -> R<()> {
        self.accessible(a, t.size())?;
        if t.is_text() {
            let V::A(s) = v.v else { return no("assignment to a text") };
            let n = match (&t.k, &v.t.k) {
                (Kind::Str(n), Kind::Str(m)) => *n.min(m),
                (Kind::WStr(n), Kind::WStr(m)) => 2 * *n.min(m),
                _ => return no("assignment between STRING and WSTRING"),
            };
            // the contents are copied, followed by a terminator if they are cut
            self.accessible(s, n)?;
            unsafe {
                std::ptr::copy(s as *const u8, a as *mut u8, n);
                std::ptr::write_bytes((a + n) as *mut u8, 0, if matches!(t.k, Kind::Str(_)) { 1 } else { 2 });
            }
            return Ok(());
        }
        if let Kind::Arr(..) = t.k {
            let V::A(s) = v.v else { return no("assignment to an array") };
            if v.t != t {
                return no("assignment between arrays");
            }
            unsafe { std::ptr::copy(s as *const u8, a as *mut u8, t.size()) };
            return Ok(());
        }
        let v = convert(v, t)?;
        let p = a as *mut u8;
        unsafe {
            match (&t.k, v.v) {
                (Kind::Real, V::F(x)) => (p as *mut f32).write_unaligned(x as f32),
                (Kind::LReal, V::F(x)) => (p as *mut f64).write_unaligned(x),
                (_, V::I(x)) => std::ptr::copy_nonoverlapping((x as u64).to_le_bytes().as_ptr(), p, t.size()),
                _ => return no("store"),
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------------------------ expressions
    fn place(&mut self, f: &Frame, e: &E) -> R<(usize, T)> {
        match e {
            E::Var(k) => Ok((f.at[*k], f.ty[*k])),
            E::Deref(e) => {
                let v = self.eval(f, e)?;
                match (&v.t.k, v.v) {
                    (Kind::Ref(t), V::I(a)) => {
                        self.accessible(a as usize, t.size())?;
                        Ok((a as usize, t))
                    }
                    _ => no("^ of something which is no pointer"),
                }
            }
            E::Index(a, i) => {
                let (at, t) = self.place(f, a)?;
                let V::I(i) = self.eval(f, i)?.v else { return no("index") };
                let (lo, n, el) = match &t.k {
                    Kind::Arr(lo, hi, el) => (*lo as i128, (hi - lo + 1) as i128, *el),
                    // characters of a text
                    Kind::Str(n) => (0, *n as i128 + 1, elementary("BYTE").unwrap()),
                    Kind::WStr(n) => (0, *n as i128 + 1, elementary("WORD").unwrap()),
                    _ => return no("index of this type"),
                };
                if i < lo || i >= lo + n {
                    return Err(Stop::Memory(format!("index {i} of {n} elements from {lo}")));
                }
                Ok((at + (i - lo) as usize * el.size(), el))
            }
            E::Global(n) => match self.lib.externals.iter().find(|x| x.0 == *n) {
                Some((n, t)) => match syms::find(n) {
                    Some(a) => {
                        let at = self.alloc(t)?;
                        unsafe { std::ptr::copy(a as *const u8, at as *mut u8, t.size()) };
                        Ok((at, t))
                    }
                    None => Err(Stop::Missing(n.clone())),
                },
                None => no(format!("variable {n}")),
            },
            _ => no("no variable"),
        }
    }
    fn is_place(e: &E) -> bool {
        matches!(e, E::Var(_) | E::Deref(_) | E::Index(..))
    }
    fn eval(&mut self, f: &Frame, e: &E) -> R<Val> {
        self.steps += 1;
        if self.steps > 5_000_000 {
            return Err(Stop::Endless);
        }
        let dint = || elementary("DINT").unwrap();
        Ok(match e {
            E::Int(v, t) => {
                let t = t.unwrap_or_else(|| if wrap(*v, dint()) == *v { dint() } else { elementary(if *v > i64::MAX as i128 { "ULINT" } else { "LINT" }).unwrap() });
                match t.k {
                    Kind::Real | Kind::LReal => convert(Val { t: elementary("LINT").unwrap(), v: V::I(*v) }, t)?,
                    _ => Val { t, v: V::I(wrap(*v, t)) },
                }
            }
            // a literal takes the type of its context; LREAL holds every value
            E::Real(v, t) => Val { t: t.unwrap_or_else(|| elementary("LREAL").unwrap()), v: V::F(if t.is_some_and(|t| t.k == Kind::Real) { *v as f32 as f64 } else { *v }) },
            E::Text(s, wide) => {
                let bytes: Vec<u8> = if *wide { s.iter().flat_map(|c| c.to_le_bytes()).collect() } else { String::from_utf16_lossy(s).into_bytes() };
                let t = text(*wide, if *wide { s.len() } else { bytes.len() });
                let a = self.alloc(t)?;
                unsafe { std::ptr::copy(bytes.as_ptr(), a as *mut u8, bytes.len()) };
                Val { t, v: V::A(a) }
            }
            E::Global(n) if self.lib.consts.contains_key(n) => {
                let lib = self.lib;
                let (t, e) = &lib.consts[n];
                let v = self.eval(f, e)?;
                convert(v, t)?
            }
            E::Var(_) | E::Deref(_) | E::Index(..) | E::Global(_) => {
                let (a, t) = self.place(f, e)?;
                self.load(a, t)?
            }
            E::Bit(e, k) => {
                let v = self.eval(f, e)?;
                match (&v.t.k, v.v) {
                    (Kind::Int(b, _), V::I(x)) if *k < *b as u32 => Val { t: elementary("BOOL").unwrap(), v: V::I((x >> k) & 1) },
                    _ => return no("access to a bit"),
                }
            }
            E::Part(e, w, k) => {
                let v = self.eval(f, e)?;
                match (&v.t.k, v.v) {
                    (Kind::Int(b, _), V::I(x)) if (*k + 1) * *w <= *b as u32 => {
                        let t = elementary(match w {
                            8 => "BYTE",
                            16 => "WORD",
                            _ => "DWORD",
                        })
                        .unwrap();
                        Val { t, v: V::I((x >> (k * w)) & ((1 << w) - 1)) }
                    }
                    _ => return no("access to a part"),
                }
            }
            E::Addr(e) => {
                let (a, t) = self.place(f, e)?;
                Val { t: reference(t), v: V::I(a as i128) }
            }
            E::Neg(e) => {
                let v = self.eval(f, e)?;
                match v.v {
                    V::I(x) => Val { t: v.t, v: V::I(wrap(-x, v.t)) },
                    V::F(x) => Val { t: v.t, v: V::F(-x) },
                    _ => return no("-"),
                }
            }
            E::Not(e) => {
                let v = self.eval(f, e)?;
                match v.v {
                    V::I(x) => Val { t: v.t, v: V::I(wrap(!x, v.t)) },
                    _ => return no("NOT"),
                }
            }
            E::Cast(t, e) => {
                let v = self.eval(f, e)?;
                convert(v, t)?
            }
            E::Bin(o, a, b) => self.binary(f, o, a, b)?,
            E::Call(n, args) => self.call_expr(f, n, args)?,
        })
    }
    fn binary(&mut self, f: &Frame, o: &'static str, a: &E, b: &E) -> R<Val> {
        let boolean = elementary("BOOL").unwrap();
        let x = self.eval(f, a)?;
        if let (true, V::I(l)) = (x.t.k == Kind::Bool, x.v) {
            // both operands are evaluated only if the first one does not decide
            match o {
                "AND" | "&" | "AND_THEN" if l == 0 => return Ok(x),
                "OR" | "OR_ELSE" if l != 0 => return Ok(x),
                _ => {}
            }
        }
        let y = self.eval(f, b)?;
        let cmp = matches!(o, "=" | "<>" | "<" | ">" | "<=" | ">=");
        if x.t.is_text() && y.t.is_text() && cmp {
            // comparison by the functions of the library
            let wide = matches!(x.t.k, Kind::WStr(_));
            let p = if wide { "W" } else { "" };
            let test = |m: &mut Self, n: &str| -> R<bool> {
                let v = m.invoke(&format!("{p}STRING_{n}"), vec![Given::Val(x), Given::Val(y)])?;
                Ok(matches!(v.v, V::I(1)))
            };
            let r = match o {
                "=" => test(self, "EQUAL")?,
                "<>" => !test(self, "EQUAL")?,
                "<" => test(self, "LESS")?,
                ">" => test(self, "GREATER")?,
                "<=" => test(self, "LESS")? || test(self, "EQUAL")?,
                _ => test(self, "GREATER")? || test(self, "EQUAL")?,
            };
            return Ok(Val { t: boolean, v: V::I(r as i128) });
        }
        let t = common(x.t, y.t)?;
        let (x, y) = (convert(x, t)?, convert(y, t)?);
        let int = |v: i128| Val { t, v: V::I(wrap(v, t)) };
        let rnd = |v: f64| Val { t, v: V::F(if t.k == Kind::Real { v as f32 as f64 } else { v }) };
        let b = |v: bool| Val { t: boolean, v: V::I(v as i128) };
        Ok(match (x.v, y.v) {
            (V::I(x), V::I(y)) => match o {
                "=" => b(x == y),
                "<>" => b(x != y),
                "<" => b(x < y),
                ">" => b(x > y),
                "<=" => b(x <= y),
                ">=" => b(x >= y),
                "+" => int(x + y),
                "-" => int(x - y),
                "*" => int(x * y),
                "/" | "MOD" if y == 0 => return Err(Stop::Unspecified),
                "/" => int(x / y),
                "MOD" => int(x % y),
                "AND" | "&" | "AND_THEN" => int(x & y),
                "OR" | "OR_ELSE" => int(x | y),
                "XOR" => int(x ^ y),
                _ => return no(o),
            },
            (V::F(x), V::F(y)) => match o {
                "=" => b(x == y),
                "<>" => b(x != y),
                "<" => b(x < y),
                ">" => b(x > y),
                "<=" => b(x <= y),
                ">=" => b(x >= y),
                "+" => rnd(x + y),
                "-" => rnd(x - y),
                "*" => rnd(x * y),
                "/" => rnd(x / y),
                _ => return no(o),
            },
            _ => return no(o),
        })
    }
    fn call_expr(&mut self, f: &Frame, n: &str, args: &[(Option<String>, E)]) -> R<Val> {
        match (n, args) {
            ("ADR" | "REF", [(None, e)]) => {
                let (a, t) = self.place(f, e)?;
                return Ok(Val { t: reference(t), v: V::I(a as i128) });
            }
            ("SIZEOF", [(None, e)]) => {
                let (_, t) = self.place(f, e)?;
                return Ok(Val { t: elementary("UDINT").unwrap(), v: V::I(t.size() as i128) });
            }
            ("SEL", [(_, g), (_, a), (_, b)]) => {
                let V::I(g) = self.eval(f, g)?.v else { return no("SEL") };
                return self.eval(f, if g == 0 { a } else { b });
            }
            ("MOVE", [(_, a)]) => return self.eval(f, a),
            _ => {}
        }
        let mut given = vec![];
        let mut named = vec![];
        for (name, e) in args {
            let g = if Self::is_place(e) {
                let (a, t) = self.place(f, e)?;
                Given::Place(a, t)
            } else {
                Given::Val(self.eval(f, e)?)
            };
            match name {
                Some(n) => named.push((n.clone(), g)),
                None => given.push(g),
            }
        }
        if !named.is_empty() {
            if !given.is_empty() {
                return no("positional and named arguments");
            }
            let Some(p) = self.lib.pous.get(n) else { return no("named arguments") };
            given = Self::by_name(n, p, &named)?;
            if self.names_of_instance && !p.generics.is_empty() {
                // the names as the instance declares them
                if let Some(q) = self.lib.pous.get(&self.instance(n, p, &given)?.0) {
                    given = Self::by_name(n, q, &named)?;
                }
            }
        }
        self.invoke(n, given)
    }

    // ------------------------------------------------------------------------------------ calls
    /// Arguments in the order of the declaration.
    fn by_name(n: &str, p: &Pou, named: &[(String, Given)]) -> R<Vec<Given>> {
        if let Some(x) = named.iter().find(|x| !p.vars.iter().any(|v| v.name == x.0 && !matches!(v.pass, Pass::Local | Pass::Return))) {
            return Err(Stop::Missing(format!("{n}.{}", x.0)));
        }
        let mut given = vec![];
        for v in p.vars.iter().filter(|v| !matches!(v.pass, Pass::Local | Pass::Return)) {
            match named.iter().find(|x| x.0 == v.name) {
                Some(g) => given.push(g.1),
                None => return no(format!("argument {} left out", v.name)),
            }
        }
        Ok(given)
    }
    /// The name of the instance of a generic function which the arguments select, and the types bound.
    fn instance(&self, n: &str, p: &Pou, given: &[Given]) -> R<(String, Vec<T>)> {
        let mut bound: Vec<T> = vec![];
        for g in &p.generics {
            let mut t: Option<T> = None;
            let mut k = 0;
            for v in p.vars.iter().filter(|v| !matches!(v.pass, Pass::Local | Pass::Return)) {
                let all = if v.variadic.is_some() { k..given.len() } else { k..(k + 1).min(given.len()) };
                k = all.end;
                if v.generic.as_ref() == Some(g) {
                    for x in &given[all] {
                        t = Some(match t {
                            None => x.ty(),
                            Some(t) if t.is_text() => t,
                            Some(t) if t == x.ty() => t,
                            Some(t) => common(t, x.ty())?,
                        });
                    }
                }
            }
            bound.push(t.ok_or_else(|| Stop::Unsupported(format!("type {g} of {n}")))?);
        }
        let full = format!("{n}__{}", bound.iter().map(|t| t.name.clone()).collect::<Vec<_>>().join("__"));
        Ok((full, bound))
    }
    /// Calls a function by its (generic) name.
    fn invoke(&mut self, n: &str, given: Vec<Given>) -> R<Val> {
        let lib = self.lib;
        if let Some(p) = lib.pous.get(n) {
            if p.generics.is_empty() {
                return self.call_pou(p, &p.name, given, &[]);
            }
            let (full, bound) = self.instance(n, p, &given)?;
            if let Some(q) = lib.pous.get(&full) {
                return self.call_pou(q, &full, given, &[]);
            }
            let binds: Vec<(String, T)> = p.generics.iter().cloned().zip(bound).collect();
            return self.call_pou(p, &full, given, &binds);
        }
        match lib.unknown.get(n) {
            Some(e) => no(format!("{n}: {e}")),
            None => Err(Stop::Missing(n.to_string())),
        }
    }
    /// `binds`: type parameters of a generic function which is implemented in the library.
    fn call_pou(&mut self, p: &Pou, name: &str, given: Vec<Given>, binds: &[(String, T)]) -> R<Val> {
        self.depth += 1;
        if self.depth > 40 {
            self.depth = 0;
            return Err(Stop::Endless);
        }
        let external = p.external || !binds.is_empty();
        let ty_of = |v: &Var| match &v.generic {
            Some(g) => match binds.iter().find(|b| b.0 == *g) {
                Some((_, t)) => *t,
                None => v.ty,
            },
            None => v.ty,
        };
        let mark = (self.sp, self.regions.len());
        let mut f = Frame { p, at: vec![], ty: vec![] };
        let mut ints: Vec<u64> = vec![];
        let mut floats: Vec<u64> = vec![];
        let mut given = given.into_iter();
        let ret_ty = ty_of(&p.vars[p.ret_slot]);
        // the result lives in the frame of the caller
        let ret_at = if ret_ty.size() > 0 { self.alloc(ret_ty)? } else { 0 };
        let keep = (self.sp, self.regions.len());
        if external && ret_ty.is_aggregate() {
            ints.push(ret_at as u64);
        }
        for v in &p.vars {
            let t = ty_of(v);
            let at = match v.pass {
                Pass::Return => ret_at,
                Pass::Local => {
                    let a = self.alloc(t)?;
                    if let Some(e) = &v.init {
                        let x = self.eval(&f, e)?;
                        self.store(a, t, x)?;
                    }
                    a
                }
                _ if v.variadic.is_some() => {
                    let rest: Vec<Given> = given.by_ref().collect();
                    if !external {
                        return no("variadic function in ST");
                    }
                    if v.variadic == Some(true) {
                        ints.push(rest.len() as u64);
                    }
                    let by_ref = v.pass != Pass::Value || t.is_aggregate();
                    let el = if by_ref { reference(t) } else { t };
                    let list = self.alloc(intern(Kind::Arr(0, rest.len() as i64 - 1, el), "ARRAY"))?;
                    for (k, g) in rest.into_iter().enumerate() {
                        let a = list + k * el.size();
                        if by_ref {
                            let r = self.by_reference(g, t)?;
                            self.store(a, el, Val { t: el, v: V::I(r as i128) })?;
                        } else {
                            let x = self.value(g)?;
                            self.store(a, t, x)?;
                        }
                    }
                    ints.push(list as u64);
                    list
                }
                Pass::Value => {
                    let a = self.alloc(t)?;
                    match given.next() {
                        Some(g) => {
                            let x = self.value(g)?;
                            self.store(a, t, x)?;
                        }
                        None => return no(format!("{name}: argument {} is missing", v.name)),
                    }
                    if external {
                        let x = self.load(a, t)?;
                        match (&t.k, x.v) {
                            (Kind::Real, V::F(x)) => floats.push((x as f32).to_bits() as u64),
                            (_, V::F(x)) => floats.push(x.to_bits()),
                            (_, V::I(x)) => ints.push(x as i64 as u64),
                            (_, V::A(a)) => ints.push(a as u64),
                        }
                    }
                    a
                }
                Pass::Ref | Pass::InOut | Pass::Out => {
                    let g = match given.next() {
                        Some(g) => g,
                        None => return no(format!("{name}: argument {} is missing", v.name)),
                    };
                    if v.pass != Pass::Ref && matches!(g, Given::Val(_)) {
                        return no("output to a value");
                    }
                    let a = self.by_reference(g, t)?;
                    ints.push(a as u64);
                    a
                }
            };
            f.at.push(at);
            f.ty.push(t);
        }
        if given.next().is_some() {
            return no(format!("{name}: too many arguments"));
        }
        if external {
            let Some(sym) = syms::find(name) else { return Err(Stop::Missing(name.to_string())) };
            self.externals += 1;
            let r = unsafe { foreign(syms::name(name), sym, &ints, &floats, ret_ty) };
            let Ok(r) = r else { return Err(Stop::Refused) };
            if !ret_ty.is_aggregate() && ret_ty.size() > 0 {
                let v = match &ret_ty.k {
                    Kind::Real => V::F(f32::from_bits(r as u32) as f64),
                    Kind::LReal => V::F(f64::from_bits(r)),
                    _ => V::I(wrap(r as i128, ret_ty)),
                };
                self.store(ret_at, ret_ty, Val { t: ret_ty, v })?;
            }
            self.gaps_intact(0)?;
        } else {
            if p.body.is_empty() && !p.generics.is_empty() {
                return Err(Stop::Missing(name.to_string()));
            }
            // variables by reference to shorter or longer texts: the type of what was handed over counts
            self.run(&mut f, &p.body)?;
        }
        // references, temporaries and locals end here
        self.gaps_intact(mark.1)?;
        self.release(keep.0, keep.1);
        self.depth -= 1;
        if ret_ty.size() == 0 {
            return Ok(Val { t: void(), v: V::I(0) });
        }
        self.load(ret_at, ret_ty)
    }
    fn value(&mut self, g: Given) -> R<Val> {
        match g {
            Given::Val(v) => Ok(v),
            Given::Place(a, t) => self.load(a, t),
        }
    }
    fn by_reference(&mut self, g: Given, t: T) -> R<usize> {
        match g {
            Given::Place(a, u) => {
                if t.is_text() != u.is_text() || (!t.is_text() && t != u && t.size() != u.size()) {
                    return no(format!("{} passed for {}", u.name, t.name));
                }
                Ok(a)
            }
            Given::Val(Val { t: u, v: V::A(a) }) if u.is_text() => Ok(a),
            Given::Val(v) => {
                let a = self.alloc(t)?;
                self.store(a, t, v)?;
                Ok(a)
            }
        }
    }
    fn truth(&mut self, f: &Frame, e: &E) -> R<bool> {
        match self.eval(f, e)?.v {
            V::I(x) => Ok(x != 0),
            _ => no("condition"),
        }
    }
    fn run(&mut self, f: &mut Frame, body: &[S]) -> R<Flow> {
        for s in body {
            self.steps += 1;
            if self.steps > 5_000_000 {
                return Err(Stop::Endless);
            }
            let mark = (self.sp, self.regions.len());
            match s {
                S::Assign(E::Bit(l, k), r) => {
                    let V::I(b) = self.eval(f, r)?.v else { return no("bit") };
                    let (a, t) = self.place(f, l)?;
                    let V::I(x) = self.load(a, t)?.v else { return no("bit") };
                    let x = if b & 1 == 1 { x | (1 << k) } else { x & !(1 << k) };
                    self.store(a, t, Val { t, v: V::I(wrap(x, t)) })?;
                }
                S::Assign(l, r) => {
                    let v = self.eval(f, r)?;
                    let (a, t) = self.place(f, l)?;
                    self.store(a, t, v)?;
                }
                S::Expr(e) => {
                    self.eval(f, e)?;
                }
                S::If(arms, other) => {
                    let mut hit: &[S] = other;
                    for (c, b) in arms {
                        if self.truth(f, c)? {
                            hit = b;
                            break;
                        }
                    }
                    match self.run(f, hit)? {
                        Flow::Next => {}
                        x => return Ok(x),
                    }
                }
                S::Case(sel, arms, other) => {
                    let V::I(x) = self.eval(f, sel)?.v else { return no("CASE") };
                    let mut hit: &[S] = other;
                    'arms: for (labels, b) in arms {
                        for (lo, hi) in labels {
                            let V::I(l) = self.eval(f, lo)?.v else { return no("CASE") };
                            let h = match hi {
                                Some(h) => match self.eval(f, h)?.v {
                                    V::I(h) => h,
                                    _ => return no("CASE"),
                                },
                                None => l,
                            };
                            if x >= l && x <= h {
                                hit = b;
                                break 'arms;
                            }
                        }
                    }
                    match self.run(f, hit)? {
                        Flow::Next => {}
                        x => return Ok(x),
                    }
                }
                S::For(v, a, b, by, body) => {
                    let (at, t) = self.place(f, v)?;
                    let x = self.eval(f, a)?;
                    self.store(at, t, x)?;
                    loop {
                        let step = match by {
                            Some(e) => match self.eval(f, e)?.v {
                                V::I(x) => x,
                                _ => return no("FOR"),
                            },
                            None => 1,
                        };
                        let (V::I(x), V::I(end)) = (self.load(at, t)?.v, self.eval(f, b)?.v) else { return no("FOR") };
                        if (step > 0 && x > end) || (step <= 0 && x < end) {
                            break;
                        }
                        match self.run(f, body)? {
                            Flow::Return => return Ok(Flow::Return),
                            Flow::Exit => break,
                            _ => {}
                        }
                        let V::I(x) = self.load(at, t)?.v else { return no("FOR") };
                        self.store(at, t, Val { t, v: V::I(wrap(x + step, t)) })?;
                    }
                }
                S::While(c, body) => {
                    while self.truth(f, c)? {
                        match self.run(f, body)? {
                            Flow::Return => return Ok(Flow::Return),
                            Flow::Exit => break,
                            _ => {}
                        }
                    }
                }
                S::Repeat(body, c) => loop {
                    match self.run(f, body)? {
                        Flow::Return => return Ok(Flow::Return),
                        Flow::Exit => break,
                        _ => {}
                    }
                    if self.truth(f, c)? {
                        break;
                    }
                },
                S::Return => return Ok(Flow::Return),
                S::Exit => return Ok(Flow::Exit),
                S::Continue => return Ok(Flow::Continue),
            }
            // temporaries of the statement
            self.gaps_intact(mark.1)?;
            self.release(mark.0, mark.1);
        }
        Ok(Flow::Next)
    }

    /// Calls a function of the library from outside. Every argument is a variable of its own; the
    /// contents of the variables afterwards are in the result.
    pub fn exec(&mut self, n: &str, args: &[Arg]) -> R<(Res, Vec<Res>)> {
        self.sp = 0;
        self.regions.clear();
        self.steps = 0;
        self.depth = 0;
        let lib = self.lib;
        let Some(p) = lib.pous.get(n) else {
            return match lib.unknown.get(n) {
                Some(e) => no(format!("{n}: {e}")),
                None => Err(Stop::Missing(n.to_string())),
            };
        };
        if p.block {
            return no("function block");
        }
        let mut given = vec![];
        let mut vars = vec![];
        let params: Vec<&Var> = p.vars.iter().filter(|v| !matches!(v.pass, Pass::Local | Pass::Return)).collect();
        for (k, a) in args.iter().enumerate() {
            let Some(v) = params.get(k).or(params.last()) else { return no("arguments") };
            let t = match a {
                Arg::S(_, n) => text(false, *n),
                Arg::W(_, n) => text(true, *n),
                _ => v.ty,
            };
            if matches!(t.k, Kind::Generic) {
                return no("argument of a generic type");
            }
            let at = self.alloc(t)?;
            match a {
                Arg::I(x) => self.store(at, t, Val { t: if t.is_int() || t.k == Kind::Bool { t } else { elementary("LINT").unwrap() }, v: V::I(wrap(*x, t)) })?,
                Arg::F(x) => self.store(at, t, Val { t: elementary("LREAL").unwrap(), v: V::F(*x) })?,
                Arg::S(s, n) => {
                    if s.len() > n + 1 {
                        return no("text");
                    }
                    unsafe { std::ptr::copy(s.as_ptr(), at as *mut u8, s.len()) }
                }
                Arg::W(s, n) => {
                    if s.len() > n + 1 {
                        return no("text");
                    }
                    unsafe { std::ptr::copy(s.as_ptr(), at as *mut u16, s.len()) }
                }
                Arg::Out => {}
            }
            given.push(Given::Place(at, t));
            vars.push((at, t));
        }
        let r = self.invoke(n, given)?;
        let show = |m: &Self, v: Val| -> R<Res> {
            Ok(match v.v {
                V::I(x) if v.t.size() > 0 => Res::I(x),
                V::I(_) => Res::None,
                V::F(x) => Res::F(x),
                V::A(a) => {
                    m.accessible(a, v.t.size())?;
                    unsafe {
                        match v.t.k {
                            Kind::Str(n) => Res::S(std::slice::from_raw_parts(a as *const u8, n + 1).to_vec()),
                            Kind::WStr(n) => Res::W((0..n + 1).map(|k| (a as *const u16).add(k).read_unaligned()).collect()),
                            _ => Res::None,
                        }
                    }
                }
            })
        };
        let res = show(self, r)?;
        let mut outs = vec![];
        for (a, t) in vars {
            let v = self.load(a, t)?;
            outs.push(show(self, v)?);
        }
        Ok((res, outs))
    }
}

#[derive(Clone, Copy, Debug)]
enum Given {
    Val(Val),
    Place(usize, T),
}
impl Given {
    fn ty(&self) -> T {
        match self {
            Given::Val(v) => v.t,
            Given::Place(_, t) => t,
        }
    }
}

/// The type in which two operands are combined.
fn common(a: T, b: T) -> R<T> {
    if a == b {
        return Ok(match a.k {
            Kind::Int(w, s) if w < 32 => elementary(if s { "DINT" } else { "UDINT" }).unwrap(),
            _ => a,
        });
    }
    let rank = |t: T| match t.k {
        Kind::Bool => Some(1),
        Kind::Int(w, _) => Some(w as u32),
        Kind::Real => Some(100),
        Kind::LReal => Some(200),
        _ => None,
    };
    match (rank(a), rank(b)) {
        (Some(x), Some(y)) => Ok(if a.is_float() || b.is_float() {
            if x > 100 || y > 100 || x == 64 || y == 64 || x == 32 || y == 32 { elementary("LREAL").unwrap() } else { elementary("REAL").unwrap() }
        } else {
            let w = x.max(y);
            let signed = |t: T| matches!(t.k, Kind::Int(_, true));
            let s = if x == y { signed(a) || signed(b) } else if x > y { signed(a) } else { signed(b) };
            elementary(match (w > 32, s || w < 32) {
                (true, true) => "LINT",
                (true, false) => "ULINT",
                (false, true) => "DINT",
                (false, false) => "UDINT",
            })
            .unwrap()
        }),
        _ => no(format!("operands {} and {}", a.name, b.name)),
    }
}

/// A call with the calling convention of x86-64 System V: integers and pointers in order in six
/// registers and on the stack, floating point numbers in their own registers.
unsafe fn foreign(name: &'static str, f: usize, i: &[u64], d: &[u64], ret: T) -> Result<u64, ()> {
    assert!(i.len() <= 12 && d.len() <= 8);
    let g = |k: usize| i.get(k).copied().unwrap_or(0);
    let x = |k: usize| f64::from_bits(d.get(k).copied().unwrap_or(0));
    type A = (u64, u64, u64, u64, u64, u64);
    let a: A = (g(0), g(1), g(2), g(3), g(4), g(5));
    let mut log: Vec<u64> = Vec::with_capacity(10);
    log.extend_from_slice(&i[..i.len().min(6)]);
    log.extend_from_slice(&d[..d.len().min(2)]);
    macro_rules! sig {
        ($r:ty) => {
            unsafe extern "C-unwind" fn(u64, u64, u64, u64, u64, u64, f64, f64, f64, f64, f64, f64, f64, f64, u64, u64, u64, u64, u64, u64) -> $r
        };
    }
    macro_rules! go {
        ($r:ty) => {{
            let f: sig!($r) = std::mem::transmute(f);
            call(name, &log, || f(a.0, a.1, a.2, a.3, a.4, a.5, x(0), x(1), x(2), x(3), x(4), x(5), x(6), x(7), g(6), g(7), g(8), g(9), g(10), g(11)))
        }};
    }
    match ret.k {
        Kind::Real => go!(f32).map(|v| v.to_bits() as u64),
        Kind::LReal => go!(f64).map(|v| v.to_bits()),
        _ => go!(u64),
    }
}
