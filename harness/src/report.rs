//! Collection of what the monitors observed, verdict and evidence.
use crate::gen::Rng;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

const BITS: usize = 1 << 27;
static DISTINCT: [AtomicU64; BITS / 64] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const Z: AtomicU64 = AtomicU64::new(0);
    [Z; BITS / 64]
};

#[derive(Clone)]
pub struct Opts {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub profile: String,
    pub scale: f64,
    pub out: String,
    pub replay: String,
    pub threads: usize,
    pub st_dir: String,
    pub src_dir: String,
    pub known: Vec<String>,
}

static OPTS: Mutex<Option<Opts>> = Mutex::new(None);

pub struct Violation {
    pub what: String,
    pub sig: String,
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub events: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub known: BTreeMap<String, u64>,
}

pub struct Ctx<'a> {
    pub rng: Rng,
    pub o: &'a Opts,
    pub unit: &'a str,
    pub chunk: usize,
    pub st: Stats,
    last: &'static str,
    cnt: u64,
}

pub const MAX_VIOL: usize = 12;
static NVIOL: AtomicUsize = AtomicUsize::new(0);
pub static STOP: AtomicBool = AtomicBool::new(false);

impl<'a> Ctx<'a> {
    /// Scales a number of cases by tier and build profile.
    pub fn n(&self, base: usize) -> usize {
        ((base as f64 * self.o.scale) as usize).max(base.min(64))
    }
    pub fn thorough(&self) -> bool {
        self.o.tier == "thorough"
    }
    /// One observed and judged execution. `hash` identifies the case, `nontrivial` by the rule of
    /// the property.
    #[inline]
    pub fn eval(&mut self, hash: u64, nontrivial: bool) {
        self.st.evals += 1;
        if nontrivial {
            let h = mix(hash) as usize % BITS;
            let (i, m) = (h / 64, 1u64 << (h % 64));
            if DISTINCT[i].load(Relaxed) & m == 0 {
                DISTINCT[i].fetch_or(m, Relaxed);
            }
        }
    }
    /// An event seen by a monitor.
    #[inline]
    pub fn ev(&mut self, name: &'static str) {
        // consecutive identical events are batched, the map is comparatively slow
        if self.last.as_ptr() == name.as_ptr() && self.last.len() == name.len() {
            self.cnt += 1;
            return;
        }
        self.flush();
        self.last = name;
        self.cnt = 1;
    }
    fn flush(&mut self) {
        if self.cnt > 0 {
            *self.st.events.entry(self.last).or_default() += self.cnt;
            self.cnt = 0;
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.chunk == 0 && self.st.samples.len() < 3 {
            let s = f();
            self.st.samples.push(s);
        }
    }
    pub fn stop(&self) -> bool {
        STOP.load(Relaxed)
    }
    /// Reports a violation. `sig` identifies the defect in the list of known findings.
    pub fn violation(&mut self, sig: &str, what: impl FnOnce() -> String) {
        if self.o.known.iter().any(|k| k == sig) {
            *self.st.known.entry(sig.to_string()).or_default() += 1;
            return;
        }
        if NVIOL.fetch_add(1, Relaxed) < MAX_VIOL {
            let what = format!("[{} profile={} unit={}#{}] {}", self.o.property, self.o.profile, self.unit, self.chunk, what());
            self.st.violations.push(Violation { what, sig: sig.to_string() });
        } else {
            STOP.store(true, Relaxed);
        }
    }
    #[inline]
    pub fn check(&mut self, ok: bool, sig: &str, what: impl FnOnce() -> String) {
        if !ok {
            self.violation(sig, what)
        }
    }
    /// `got` has to be equal to the expected outcome; `None` stands for a rejected call.
    #[inline]
    pub fn expect<T: PartialEq + std::fmt::Debug>(&mut self, got: Result<T, ()>, want: Option<T>, desc: impl FnOnce() -> String) {
        if got.as_ref().ok() != want.as_ref() {
            let c = crate::call::cur();
            self.violation(c.name, || format!("{}: got {}, expected {}", desc(), show(&got.ok()), show(&want)))
        }
    }
}

pub fn show<T: std::fmt::Debug>(v: &Option<T>) -> String {
    match v {
        Some(v) => format!("{v:?}"),
        None => "a rejection (panic)".into(),
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}
pub fn hashes(v: &[u64]) -> u64 {
    let mut h = 7u64;
    for x in v {
        h = mix(h ^ *x).rotate_left(17);
    }
    h
}
pub fn esc(b: &[u8]) -> String {
    b.iter().flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect()
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o + "\""
}

pub struct Unit {
    pub name: String,
    pub chunks: usize,
    pub f: Box<dyn Fn(&mut Ctx) + Send + Sync>,
}

pub fn unit(name: &str, chunks: usize, f: impl Fn(&mut Ctx) + Send + Sync + 'static) -> Unit {
    Unit { name: name.to_string(), chunks, f: Box::new(f) }
}

fn write_replay(o: &Opts, lines: &[String]) {
    let mut t = format!(
        "property={} tier={} seed={} profile={} scale={}\nre-run: VERIF_SEED={} VERIF_TIER={} python3 check.py {} {}\n",
        o.property, o.tier, o.seed, o.profile, o.scale, o.seed, o.tier, o.property, o.tier
    );
    for l in lines {
        t += l;
        t.push('\n');
    }
    let _ = std::fs::write(&o.replay, t);
}

/// The process is about to be ended because of a crash or hang inside of a monitored call.
pub fn crash(what: &str) {
    let o = match OPTS.try_lock() {
        Ok(g) => g.clone(),
        Err(_) => None,
    };
    if let Some(o) = o {
        let msg = format!("[{} profile={}] {}", o.property, o.profile, what);
        write_replay(&o, &[msg.clone()]);
        let _ = std::fs::write(
            &o.out,
            format!("{{\"evaluations\":1,\"distinct\":0,\"calls\":0,\"panics\":0,\"events\":{{}},\"samples\":[{}],\"violations\":[{}],\"known\":{{}},\"missing\":[]}}", jstr(&msg), jstr(&msg)),
        );
        eprintln!("{msg}");
    }
}

pub fn parse_opts() -> Opts {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String {
        a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or_else(|| d.to_string())
    };
    Opts {
        property: a.get(1).cloned().unwrap_or_default(),
        tier: get("--tier", "quick"),
        seed: get("--seed", "1").parse().unwrap_or(1),
        profile: get("--profile", "?"),
        scale: get("--scale", "1").parse().unwrap_or(1.0),
        out: get("--out", "/dev/null"),
        replay: get("--replay", "/dev/null"),
        threads: get("--threads", "8").parse().unwrap_or(8),
        st_dir: get("--st", "/repo/iec61131-st"),
        src_dir: get("--src", "/repo/src"),
        known: get("--known", "").split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
    }
}

/// Runs the units on all threads, writes the results for the driver. Exit code 0: held, 1: violated,
/// 2: inconclusive (a class of events which the monitors have to see was not seen).
pub fn run(o: Opts, units: Vec<Unit>, required: &[&'static str]) -> ! {
    *OPTS.lock().unwrap() = Some(o.clone());
    crate::call::open_crash_file(&format!("{}.crash", o.out));
    crate::call::install();
    crate::gen::load_dict(&o.src_dir);
    // what watches the whole process runs alone
    let mut phases: [Vec<(usize, usize)>; 3] = [vec![], vec![], vec![]];
    for (i, u) in units.iter().enumerate() {
        for c in 0..u.chunks {
            let phase = match u.name.as_str() {
                "process" => 0,
                "beside" => 2,
                _ => 1,
            };
            phases[phase].push((i, c));
        }
    }
    let total = Mutex::new(Stats::default());
    for (phase, jobs) in phases.iter().enumerate() {
      let next = AtomicUsize::new(0);
      std::thread::scope(|s| {
        for _ in 0..if phase == 1 { o.threads } else { 1 } {
            s.spawn(|| {
                crate::call::install_alt_stack();
                loop {
                    let j = next.fetch_add(1, Relaxed);
                    if j >= jobs.len() || STOP.load(Relaxed) {
                        break;
                    }
                    let (u, c) = jobs[j];
                    let u = &units[u];
                    let seed = mix(o.seed ^ mix(hash_str(&u.name) ^ mix(c as u64)));
                    let mut ctx = Ctx { rng: Rng::new(seed), o: &o, unit: &u.name, chunk: c, st: Stats::default(), last: "", cnt: 0 };
                    (u.f)(&mut ctx);
                    ctx.flush();
                    let st = ctx.st;
                    let mut t = total.lock().unwrap();
                    t.evals += st.evals;
                    for (k, v) in st.events {
                        *t.events.entry(k).or_default() += v;
                    }
                    for (k, v) in st.known {
                        *t.known.entry(k).or_default() += v;
                    }
                    if t.samples.len() < 60 {
                        t.samples.extend(st.samples);
                    }
                    t.violations.extend(st.violations);
                }
                crate::call::flush_counters();
            });
        }
      });
    }
    let t = total.into_inner().unwrap();
    let distinct: u64 = DISTINCT.iter().map(|w| w.load(Relaxed).count_ones() as u64).sum();
    let missing: Vec<&str> = required.iter().filter(|r| !t.events.contains_key(*r)).copied().collect();
    let mut j = String::new();
    let _ = write!(
        j,
        "{{\"evaluations\":{},\"distinct\":{},\"calls\":{},\"panics\":{},\"events\":{{",
        t.evals,
        distinct,
        crate::call::CALLS.load(Relaxed),
        crate::call::PANICS.load(Relaxed)
    );
    j += &t.events.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(",");
    j += "},\"samples\":[";
    j += &t.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",");
    j += "],\"violations\":[";
    j += &t.violations.iter().map(|s| jstr(&s.what)).collect::<Vec<_>>().join(",");
    j += "],\"known\":{";
    j += &t.known.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(",");
    j += "},\"functions\":[";
    j += &crate::call::called().iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",");
    j += "],\"missing\":[";
    j += &missing.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",");
    j += "]}";
    std::fs::write(&o.out, j).expect("cannot write results");
    if !t.violations.is_empty() {
        let lines: Vec<String> = t.violations.iter().map(|v| v.what.clone()).collect();
        write_replay(&o, &lines);
        for l in lines.iter().take(5) {
            eprintln!("{l}");
        }
        std::process::exit(1);
    }
    if !missing.is_empty() {
        eprintln!("INCONCLUSIVE: never observed: {missing:?}");
        std::process::exit(2);
    }
    std::process::exit(0);
}
