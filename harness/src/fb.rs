//! Function block instances as the ST side sees them: layout taken from the declarations in
//! iec61131-st, memory of exactly that size in front of a guard page.
use crate::mem::Guard;
use std::collections::BTreeMap;
use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    In,
    Out,
    Local,
}
#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    pub ty: String,
    pub off: usize,
    pub size: usize,
    pub kind: Kind,
}
#[derive(Clone, Debug)]
pub struct Layout {
    pub name: String,
    pub size: usize,
    pub align: usize,
    pub fields: Vec<Field>,
}
impl Layout {
    pub fn field(&self, n: &str) -> &Field {
        self.fields.iter().find(|f| f.name.eq_ignore_ascii_case(n)).unwrap_or_else(|| panic!("{} has no {n}", self.name))
    }
    pub fn off(&self, n: &str) -> usize {
        self.field(n).off
    }
}

pub fn strip_comments(t: &str) -> String {
    let b: Vec<char> = t.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    let mut depth = 0;
    while i < b.len() {
        if depth == 0 && b[i] == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' {
                i += 1
            }
        } else if b[i] == '(' && b.get(i + 1) == Some(&'*') {
            depth += 1;
            i += 2;
        } else if depth > 0 && b[i] == '*' && b.get(i + 1) == Some(&')') {
            depth -= 1;
            i += 2;
            o.push(' ');
        } else {
            if depth == 0 {
                o.push(b[i])
            }
            i += 1;
        }
    }
    o
}

pub fn size_align(ty: &str) -> Option<(usize, usize)> {
    let t = ty.trim().to_ascii_uppercase();
    Some(match t.as_str() {
        "BOOL" | "BYTE" | "SINT" | "USINT" | "CHAR" => (1, 1),
        "INT" | "UINT" | "WORD" | "WCHAR" => (2, 2),
        "DINT" | "UDINT" | "DWORD" | "REAL" => (4, 4),
        "LINT" | "ULINT" | "LWORD" | "LREAL" | "TIME" | "LTIME" | "DATE" | "LDATE" | "TOD" | "LTOD" | "DT" | "LDT" | "TIME_OF_DAY" | "DATE_AND_TIME" => (8, 8),
        _ => {
            let r = t.strip_prefix("ARRAY")?;
            let (dims, el) = r.split_once("OF")?;
            let dims = dims.trim().trim_start_matches('[').trim_end_matches(']');
            let (lo, hi) = dims.split_once("..")?;
            let n = hi.trim().parse::<i64>().ok()? - lo.trim().parse::<i64>().ok()? + 1;
            let (s, a) = size_align(el)?;
            (s * n as usize, a)
        }
    })
}

pub fn parse(text: &str) -> Vec<Layout> {
    let t = strip_comments(text);
    let mut out = vec![];
    let mut rest = t.as_str();
    while let Some(i) = rest.find("FUNCTION_BLOCK ") {
        let body = &rest[i + 15..];
        let Some(e) = body.find("END_FUNCTION_BLOCK") else { break };
        let (decl, tail) = body.split_at(e);
        rest = &tail[18..];
        let name = decl.split_whitespace().next().unwrap_or("").to_string();
        let mut l = Layout { name: name.clone(), size: 0, align: 1, fields: vec![] };
        let mut s = &decl[decl.find(&name).unwrap() + name.len()..];
        while let Some(v) = s.find("VAR") {
            let Some(ev) = s.find("END_VAR") else { break };
            let sec = &s[v..ev];
            let (kind, sec) = if let Some(x) = sec.strip_prefix("VAR_INPUT") {
                (Kind::In, x)
            } else if let Some(x) = sec.strip_prefix("VAR_OUTPUT") {
                (Kind::Out, x)
            } else {
                (Kind::Local, &sec[3..])
            };
            for d in sec.split(';') {
                let Some((n, ty)) = d.split_once(':') else { continue };
                let ty = ty.split(":=").next().unwrap().trim();
                let (sz, al) = size_align(ty).unwrap_or_else(|| panic!("unknown type {ty} in {name}"));
                for n in n.split(',') {
                    let off = (l.size + al - 1) / al * al;
                    l.fields.push(Field { name: n.trim().to_string(), ty: ty.to_ascii_uppercase(), off, size: sz, kind });
                    l.size = off + sz;
                    l.align = l.align.max(al);
                }
            }
            s = &s[ev + 7..];
        }
        l.size = (l.size + l.align - 1) / l.align * l.align;
        out.push(l);
    }
    out
}

static LAYOUTS: OnceLock<BTreeMap<String, Layout>> = OnceLock::new();

pub fn load(dir: &str) {
    let mut m = BTreeMap::new();
    let mut files: Vec<_> = std::fs::read_dir(dir).expect("ST directory").flatten().map(|e| e.path()).collect();
    files.sort();
    for f in files {
        if f.extension().map_or(false, |x| x == "st") {
            for l in parse(&std::fs::read_to_string(&f).unwrap_or_default()) {
                m.insert(l.name.clone(), l);
            }
        }
    }
    let _ = LAYOUTS.set(m);
}
pub fn layout(n: &str) -> &'static Layout {
    LAYOUTS.get().expect("layouts").get(n).unwrap_or_else(|| panic!("no FUNCTION_BLOCK {n} in the ST declarations"))
}
pub fn all() -> &'static BTreeMap<String, Layout> {
    LAYOUTS.get().expect("layouts")
}

/// Zero-initialized instance, as ST allocates it.
pub struct Inst {
    pub g: Guard,
    pub l: &'static Layout,
}
impl Inst {
    pub fn new(l: &'static Layout) -> Inst {
        let mut g = Guard::new(l.size.max(64));
        g.dest(l.size, |_| 0, 0x5a);
        Inst { g, l }
    }
    pub fn reset(&mut self) {
        let n = self.l.size;
        self.g.dest(n, |_| 0, 0x5a);
    }
    #[inline]
    pub fn ptr(&self) -> *mut u8 {
        self.g.ptr()
    }
    #[inline]
    pub fn set<T: Copy>(&mut self, off: usize, v: T) {
        debug_assert!(off + std::mem::size_of::<T>() <= self.l.size);
        unsafe { (self.ptr().add(off) as *mut T).write_unaligned(v) }
    }
    #[inline]
    pub fn get<T: Copy>(&self, off: usize) -> T {
        unsafe { (self.ptr().add(off) as *const T).read_unaligned() }
    }
}
