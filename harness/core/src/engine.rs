//! Property engine: choice-tape generation, parallel deterministic search, shrinking,
//! crash isolation, known findings, replay files and evidence.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::path::PathBuf;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::Instant;

// ---------------------------------------------------------------- random source
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

/// Every random choice of a case is drawn from here and recorded on the tape, so a case can be
/// replayed and shrunk. Choice 0 is always the simplest one.
pub struct Src {
    pub tape: Vec<u32>,
    pos: usize,
    rng: Option<Rng>,
}
impl Src {
    pub fn random(seed: u64) -> Self {
        Src { tape: Vec::with_capacity(256), pos: 0, rng: Some(Rng::new(seed)) }
    }
    pub fn replay(tape: Vec<u32>) -> Self {
        Src { tape, pos: 0, rng: None }
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u32) -> u32 {
        debug_assert!(n > 0);
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.rng {
            Some(r) => {
                let v = ((r.next() >> 32) * n as u64 >> 32) as u32;
                self.tape.push(v);
                v
            }
            None => match self.tape.get(self.pos) {
                Some(v) => *v % n,
                None => 0,
            },
        };
        self.pos += 1;
        v
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u32) as i64
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u32) as usize
    }
    /// true with probability num/den; "false" is the simplest choice
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len() as u32) as usize]
    }
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        weights.len() - 1
    }
    pub fn u64(&mut self) -> u64 {
        ((self.below(1 << 16) as u64) << 48)
            | ((self.below(1 << 16) as u64) << 32)
            | ((self.below(1 << 16) as u64) << 16)
            | self.below(1 << 16) as u64
    }
    /// Fisher-Yates; the identity is the simplest
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in 0..v.len().saturating_sub(1) {
            let j = i + self.below((v.len() - i) as u32) as usize;
            v.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------- case results
#[derive(Clone, Debug)]
pub struct Fail {
    /// short stable signature of what failed
    pub sig: String,
    pub msg: String,
    pub files: Vec<(String, String)>,
}
pub type CaseResult = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into(), files: vec![] })
}
pub trait WithFile {
    fn with(self, name: &str, content: &str) -> Self;
}
impl<T> WithFile for Result<T, Fail> {
    fn with(self, name: &str, content: &str) -> Self {
        self.map_err(|mut f| {
            if !f.files.iter().any(|(n, _)| n == name) {
                f.files.push((name.into(), content.into()));
            }
            f
        })
    }
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond { return $crate::engine::fail($sig, format!($($arg)*)); }
    };
}

pub struct Ctx {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: Option<u64>,
    pub sample: Option<String>,
    /// inputs of the current case, shown with a failure
    pub files: Vec<(String, String)>,
    pub rt: std::rc::Rc<tokio::runtime::Runtime>,
    /// private to this worker
    pub scratch: PathBuf,
    pub thorough: bool,
}
impl Ctx {
    pub fn label(&mut self, l: impl Into<String>) {
        *self.labels.entry(l.into()).or_insert(0) += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l)
        }
    }
    /// mark this case as non-trivial; `key` decides distinctness
    pub fn nontrivial(&mut self, key: &impl Hash) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        key.hash(&mut h);
        self.nontrivial = Some(h.finish());
    }
    pub fn attach(&mut self, name: &str, content: &str) {
        if std::env::var("VT_ATTACH").is_ok() { eprintln!("--- {name}\n{content}"); }
        self.files.retain(|f| f.0 != name);
        self.files.push((name.into(), content.into()));
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        if self.sample.is_none() {
            self.sample = Some(s.into());
        }
    }
    pub fn block_on<F: std::future::Future>(&self, f: F) -> F::Output {
        self.rt.block_on(f)
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> CaseResult;
pub type ProbeFn = fn(&serde_json::Value, &mut Ctx) -> CaseResult;

#[derive(Clone)]
pub struct Stream {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub case: CaseFn,
}
#[derive(Clone)]
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub streams: Vec<Stream>,
    /// re-runs one listed known finding from its recorded input
    pub probe: Option<ProbeFn>,
    /// minimal fraction (per mille) of cases that must be non-trivial, else the check is in error
    pub min_nontrivial: u64,
}

// ---------------------------------------------------------------- panics
thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        if std::env::var_os("VT_PANIC").is_some() {
            eprintln!("panic at {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}
pub fn take_panic() -> (String, String) {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("?".into(), "panic".into()))
}
fn squash(msg: &str) -> String {
    // digits and quoted text removed, so that one root cause has one signature
    let mut out = String::new();
    let mut last_digit = false;
    for c in msg.chars().take(160) {
        if c.is_ascii_digit() {
            if !last_digit {
                out.push('#');
            }
            last_digit = true;
        } else {
            last_digit = false;
            out.push(if c == '\n' { ' ' } else { c });
        }
    }
    out
}
/// Runs f; a panic becomes a Fail.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, Fail>) -> Result<T, Fail> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let (loc, msg) = take_panic();
            let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or(&loc).to_string();
            let file = file.trim_start_matches("/repo/").to_string();
            let short: String = msg.split(['`', '"', '\'']).next().unwrap_or("").chars().take(60).collect();
            fail(format!("panic:{file}:{}", squash(&short)), format!("panic at {loc}: {msg}"))
        }
    }
}

// ---------------------------------------------------------------- known findings
#[derive(Clone, Debug, serde::Deserialize)]
pub struct Known {
    pub property: String,
    pub id: String,
    pub sig: String,
    pub what: String,
    #[serde(default)]
    pub input: serde_json::Value,
    #[serde(default)]
    pub status: String,
    /// the property recognises the finding's own shape in generated cases and gives it this signature
    #[serde(default)]
    pub generated: bool,
}
fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}
fn load_known(id: &str) -> Vec<Known> {
    let path = verif_dir().join("known_findings.json");
    let Ok(text) = std::fs::read_to_string(path) else { return vec![] };
    let v: serde_json::Value = serde_json::from_str(&text).expect("known_findings.json");
    v["findings"]
        .as_array()
        .into_iter()
        .flatten()
        .map(|k| serde_json::from_value::<Known>(k.clone()).expect("known finding"))
        .filter(|k| k.property == id)
        .collect()
}

// ---------------------------------------------------------------- running
fn mix(seed: u64, id: &str, stream: &str, idx: u64) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in id.bytes().chain([0]).chain(stream.bytes()).chain([0]) {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    let mut r = Rng(h ^ seed.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next();
    Rng(r.next() ^ idx.wrapping_mul(0xA076_1D64_78BD_642F)).next()
}

#[derive(Default)]
struct Totals {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    nontrivial_cases: u64,
    labels: BTreeMap<String, u64>,
    samples: Vec<(u64, String)>,
    known_hits: BTreeMap<String, u64>,
    per_stream: BTreeMap<String, u64>,
}
struct Found {
    stream: usize,
    idx: u64,
    tape: Vec<u32>,
    fail: Fail,
}

pub struct Env {
    pub seed: u64,
    pub thorough: bool,
    pub scratch: PathBuf,
    pub workers: usize,
}
impl Env {
    pub fn get() -> Self {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
        let scratch = std::env::var_os("VT_SCRATCH").map(PathBuf::from).unwrap_or_else(|| {
            let d = std::env::temp_dir().join(format!("vt-{}", std::process::id()));
            std::fs::create_dir_all(&d).unwrap();
            d
        });
        let workers = std::env::var("VT_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
        Env { seed, thorough, scratch, workers }
    }
    fn ctx(&self, worker: usize) -> Ctx {
        let scratch = self.scratch.join(format!("w{worker}"));
        let _ = std::fs::create_dir_all(&scratch);
        Ctx {
            labels: BTreeMap::new(),
            nontrivial: None,
            sample: None,
            files: vec![],
            rt: std::rc::Rc::new(
                tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap(),
            ),
            scratch,
            thorough: self.thorough,
        }
    }
}
const STACK: usize = 256 << 20;

fn run_case(stream: &Stream, src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    ctx.files.clear();
    guarded(|| (stream.case)(src, ctx)).map_err(|mut f| {
        for (n, c) in ctx.files.drain(..) {
            if !f.files.iter().any(|x| x.0 == n) {
                f.files.push((n, c));
            }
        }
        f
    })
}

fn shrink(stream: &Stream, tape: Vec<u32>, first: Fail, ctx: &mut Ctx) -> (Vec<u32>, Fail) {
    let t0 = Instant::now();
    let mut best = tape;
    let mut best_fail = first;
    let sig = best_fail.sig.clone();
    let mut evals = 0u32;
    let mut try_it = |cand: &[u32], best_fail: &mut Fail| -> Option<usize> {
        evals += 1;
        if evals > 4000 || t0.elapsed().as_secs() > 40 {
            return None;
        }
        let mut src = Src::replay(cand.to_vec());
        match run_case(stream, &mut src, ctx) {
            Err(f) if f.sig == sig => {
                *best_fail = f;
                Some(src.used())
            }
            _ => None,
        }
    };
    if let Some(n) = try_it(&best.clone(), &mut best_fail) {
        best.truncate(n);
    }
    loop {
        let before = best.clone();
        // delete blocks
        for size in [256usize, 64, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 {
                let start = i.saturating_sub(size);
                if start < best.len() && size <= best.len() {
                    let mut cand = best.clone();
                    cand.drain(start..(start + size).min(best.len()));
                    if let Some(n) = try_it(&cand, &mut best_fail) {
                        cand.truncate(n);
                        best = cand;
                        i = start.min(best.len());
                        continue;
                    }
                }
                i -= 1.min(i);
                if size > 4 {
                    i = i.saturating_sub(size / 2);
                }
            }
        }
        // zero blocks, then lower single values
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    cand[i..end].fill(0);
                    if let Some(n) = try_it(&cand, &mut best_fail) {
                        cand.truncate(n);
                        best = cand;
                    }
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() {
            let mut step = best[i] / 2;
            while i < best.len() && best[i] > 0 && step > 0 {
                let mut cand = best.clone();
                step = step.min(best[i]);
                cand[i] -= step;
                if let Some(n) = try_it(&cand, &mut best_fail) {
                    cand.truncate(n);
                    best = cand;
                } else {
                    step /= 2;
                }
            }
            if i < best.len() && best[i] > 0 {
                let mut cand = best.clone();
                cand[i] -= 1;
                if let Some(n) = try_it(&cand, &mut best_fail) {
                    cand.truncate(n);
                    best = cand;
                }
            }
            i += 1;
        }
        if best == before || t0.elapsed().as_secs() > 40 {
            break;
        }
    }
    (best, best_fail)
}

fn write_replay(prop: &Prop, stream: &str, idx: u64, seed: u64, tape: &[u32], f: &Fail) -> PathBuf {
    let dir = verif_dir().join("replays").join(prop.id);
    let _ = std::fs::create_dir_all(&dir);
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (stream, &f.sig).hash(&mut h);
    let path = dir.join(format!("{:016x}.json", h.finish()));
    let files: serde_json::Map<String, serde_json::Value> =
        f.files.iter().map(|(n, c)| (n.clone(), c.clone().into())).collect();
    let v = serde_json::json!({"property": prop.id, "stream": stream, "case": idx, "seed": seed, "sig": f.sig,
        "message": f.msg, "files": files, "tape": tape,
        "how": format!("bash /verif/check.sh {} --replay <this file>", prop.id)});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

fn preview(f: &Fail) -> String {
    let mut s = format!("  sig: {}\n  {}\n", f.sig, f.msg.replace('\n', "\n  "));
    for (n, c) in &f.files {
        s += &format!("  --- {n}: {c:?}\n");
    }
    if s.len() > 6000 {
        let mut i = 6000;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        s.truncate(i);
        s.push_str("...\n");
    }
    s
}

/// Entry point used by the binaries.
pub fn main_with(props: Vec<Prop>) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() {
        for p in &props {
            println!("{}", p.id);
        }
        std::process::exit(0);
    }
    let Some(prop) = props.iter().find(|p| p.id == args[0]).cloned() else {
        eprintln!("unknown property {}", args[0]);
        std::process::exit(2);
    };
    let env = Env::get();
    // nothing is cached on disk; the property of the cache itself sets this anew
    // nor is a configuration of the user read, but for those the property of the search writes
    unsafe {
        std::env::set_var("TOMBI_CACHE_HOME", "/dev/null/none");
        std::env::set_var("XDG_CONFIG_HOME", env.scratch.join("xdg"));
        std::env::set_var("HOME", env.scratch.join("home"));
    }
    install_hook();
    let code = if let Some(i) = args.iter().position(|a| a == "--replay") {
        in_big_thread(move || replay_file(&prop, &env, &args[i + 1]))
    } else if let Some(i) = args.iter().position(|a| a == "--one") {
        // --one stream idx : run one random case in isolation, quietly (used after a crash)
        let (s, idx) = (args[i + 1].clone(), args[i + 2].parse::<u64>().unwrap());
        in_big_thread(move || {
            let stream = prop.streams.iter().find(|x| x.name == s).unwrap();
            let mut src = Src::random(mix(env.seed, prop.id, stream.name, idx));
            let mut ctx = env.ctx(0);
            let r = run_case(stream, &mut src, &mut ctx);
            if let Err(f) = &r {
                println!("{}", preview(f));
            }
            r.is_err() as i32
        })
    } else if let Some(i) = args.iter().position(|a| a == "--show") {
        // --show stream n : print generated samples
        let (s, n) = (args[i + 1].clone(), args[i + 2].parse::<u64>().unwrap());
        in_big_thread(move || {
            let stream = prop.streams.iter().find(|x| x.name == s).unwrap();
            for idx in 0..n {
                let mut src = Src::random(mix(env.seed, prop.id, stream.name, idx));
                let mut ctx = env.ctx(0);
                let r = run_case(stream, &mut src, &mut ctx);
                println!("===== {idx} ok={} labels={:?}\n{}", r.is_ok(), ctx.labels, ctx.sample.unwrap_or_default());
            }
            0
        })
    } else if std::env::var_os("VT_CHILD").is_some() {
        run_search(&prop, &env)
    } else {
        supervise(&prop, &env)
    };
    std::process::exit(code);
}
fn in_big_thread(f: impl FnOnce() -> i32 + Send + 'static) -> i32 {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap_or(2)
}

fn replay_file(prop: &Prop, env: &Env, path: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).unwrap();
    let stream = prop.streams.iter().find(|s| s.name == v["stream"]).expect("stream");
    let tape: Vec<u32> = serde_json::from_value(v["tape"].clone()).unwrap();
    let mut ctx = env.ctx(0);
    match run_case(stream, &mut Src::replay(tape), &mut ctx) {
        Ok(()) => {
            println!("replay: no failure");
            0
        }
        Err(f) => {
            println!("{}", preview(&f));
            for (n, c) in &f.files {
                println!("=== {n}\n{c}");
            }
            println!("VIOLATION property={} replay={}", prop.id, path);
            1
        }
    }
}

/// Runs the search in a child process so that an abort (stack overflow) is attributed to a case.
fn supervise(prop: &Prop, env: &Env) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let progress = env.scratch.join("progress");
    let _ = std::fs::remove_file(&progress);
    let t0 = Instant::now();
    let status = std::process::Command::new(&exe)
        .arg(prop.id)
        .env("VT_CHILD", "1")
        .env("VT_SCRATCH", &env.scratch)
        .status()
        .expect("spawn");
    if let Some(c) = status.code() {
        return c;
    }
    use std::os::unix::process::ExitStatusExt;
    let sig = status.signal().unwrap_or(0);
    eprintln!("search process died with signal {sig}");
    if ![4, 6, 7, 8, 11].contains(&sig) {
        return 3;
    }
    let data = std::fs::read(&progress).unwrap_or_default();
    for slot in data.chunks_exact(16) {
        let stream = u64::from_le_bytes(slot[..8].try_into().unwrap());
        let idx = u64::from_le_bytes(slot[8..].try_into().unwrap());
        if stream == 0 {
            continue;
        }
        let stream = &prop.streams[stream as usize - 1];
        let died = |tape: Option<&[u32]>| -> bool {
            let mut c = std::process::Command::new(&exe);
            c.arg(prop.id).env("VT_SCRATCH", &env.scratch).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
            match tape {
                None => c.args(["--one", stream.name, &idx.to_string()]),
                Some(t) => {
                    let p = env.scratch.join("crash.json");
                    std::fs::write(&p, serde_json::json!({"stream": stream.name, "tape": t}).to_string()).unwrap();
                    c.arg("--replay").arg(p)
                }
            };
            c.status().ok().and_then(|s| s.signal()).is_some_and(|s| [4, 6, 7, 8, 11].contains(&s))
        };
        if !died(None) {
            continue;
        }
        let f = Fail {
            sig: format!("abort:signal{sig}"),
            msg: format!("the process was aborted by signal {sig} (stack overflow or abort) on this case"),
            files: vec![],
        };
        let path = write_unshrunk(prop, env, stream.name, idx, &f);
        print!("{}", preview(&f));
        let ev = serde_json::json!({"property": prop.id, "tier": if env.thorough {"thorough"} else {"quick"}, "seed": env.seed,
            "level": "exploration", "coverage": {"evaluations": idx, "distinct_nontrivial": 0, "rule": prop.rule,
            "samples": [format!("stream {} case {idx} aborted the process", stream.name)]},
            "assumptions": prop.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": 1});
        write_evidence(prop.id, &ev);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        return 1;
    }
    eprintln!("the crash did not reproduce on a single case");
    3
}
/// for a case whose process died or hung: only its coordinates are known
fn write_unshrunk(prop: &Prop, env: &Env, stream: &str, idx: u64, f: &Fail) -> PathBuf {
    let dir = verif_dir().join("replays").join(prop.id);
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{stream}-{idx}.json", f.sig.replace(':', "-")));
    let _ = std::fs::write(
        &path,
        serde_json::json!({"property": prop.id, "stream": stream, "case": idx, "seed": env.seed, "sig": f.sig,
            "message": f.msg, "how": format!("VERIF_SEED={} <binary> {} --one {stream} {idx}", env.seed, prop.id)})
        .to_string(),
    );
    path
}
fn write_evidence(id: &str, ev: &serde_json::Value) {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(ev).unwrap()).expect("evidence");
}

fn run_search(prop: &Prop, env: &Env) -> i32 {
    let t0 = Instant::now();
    let known = load_known(prop.id);
    let known_sigs: HashSet<String> =
        known.iter().filter(|k| k.status != "fixed" && k.generated).map(|k| k.sig.clone()).collect();
    // 1. listed findings are re-run from their recorded input
    let mut known_seen = 0;
    let mut fixed_broken: Vec<(Known, Fail)> = vec![];
    {
        let known2 = known.clone();
        let prop2 = prop.clone();
        let env2 = Env { seed: env.seed, thorough: env.thorough, scratch: env.scratch.clone(), workers: 1 };
        let res: Vec<(Known, CaseResult)> = std::thread::Builder::new()
            .stack_size(STACK)
            .spawn(move || {
                let mut ctx = env2.ctx(0);
                known2
                    .into_iter()
                    .filter(|k| !k.input.is_null())
                    .map(|k| {
                        let probe = prop2.probe.expect("a property with known findings needs a probe");
                        let r = guarded(|| probe(&k.input, &mut ctx));
                        (k, r)
                    })
                    .collect()
            })
            .unwrap()
            .join()
            .unwrap_or_default();
        for (k, r) in res {
            match (k.status.as_str(), r) {
                ("fixed", Ok(())) => {}
                ("fixed", Err(f)) => fixed_broken.push((k, f)),
                (_, Err(f)) if f.sig == k.sig => {
                    known_seen += 1;
                    println!("KNOWN-FINDING: property={} {} [{}]", prop.id, k.what, k.id);
                }
                (_, Err(f)) => {
                    println!("note: finding {} now fails differently", k.id);
                    fixed_broken.push((k, f));
                }
                (_, Ok(())) => println!("note: finding {} no longer fails", k.id),
            }
        }
    }
    // 2. generated search
    let mut jobs: Vec<(usize, u64)> = vec![];
    for (i, s) in prop.streams.iter().enumerate() {
        let n = if env.thorough { s.thorough } else { s.quick };
        let scale: f64 = std::env::var("VT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        if let Ok(only) = std::env::var("VT_STREAM")
            && only != s.name
        {
            continue;
        }
        jobs.push((i, (n as f64 * scale).ceil() as u64));
    }
    let next = AtomicU64::new(0);
    let total: u64 = jobs.iter().map(|j| j.1).sum();
    let totals = Mutex::new(Totals::default());
    let found: Mutex<HashMap<(usize, String), Found>> = Mutex::new(HashMap::new());
    let n_found = AtomicU64::new(0);
    let max_found: u64 = std::env::var("VT_FOUND").ok().and_then(|s| s.parse().ok()).unwrap_or(200);
    let done = AtomicBool::new(false);
    let hang = AtomicBool::new(false);
    let progress = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(env.scratch.join("progress")).unwrap();
    let slots: Vec<Mutex<(Instant, usize, u64)>> = (0..env.workers).map(|_| Mutex::new((Instant::now(), usize::MAX, 0))).collect();
    std::thread::scope(|sc| {
        // watchdog: cases are small and take milliseconds; one that runs for 90 s does not end
        sc.spawn(|| {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(200));
                for s in &slots {
                    let (t, stream, idx) = *s.lock().unwrap();
                    if stream != usize::MAX && t.elapsed().as_secs() > 90 {
                        let name = prop.streams[stream].name;
                        let f = Fail {
                            sig: "hang".into(),
                            msg: format!("stream {name} case {idx} did not end within 90 s"),
                            files: vec![],
                        };
                        hang.store(true, Ordering::Relaxed);
                        let path = write_unshrunk(prop, env, name, idx, &f);
                        let ev = serde_json::json!({"property": prop.id, "tier": if env.thorough {"thorough"} else {"quick"}, "seed": env.seed,
                            "level": "exploration", "coverage": {"evaluations": idx, "distinct_nontrivial": 0, "rule": prop.rule,
                            "samples": [f.msg]}, "assumptions": prop.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": 1});
                        write_evidence(prop.id, &ev);
                        println!("VIOLATION property={} replay={}", prop.id, path.display());
                        let _ = std::io::stdout().flush();
                        std::process::exit(1);
                    }
                }
            }
        });
        let mut hs = vec![];
        for w in 0..env.workers {
            let (next, totals, found, n_found, jobs, slots, progress, known_sigs) =
                (&next, &totals, &found, &n_found, &jobs, &slots, &progress, &known_sigs);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(sc, move || {
                        use std::os::unix::fs::FileExt;
                        let mut ctx = env.ctx(w);
                        let mut local = Totals::default();
                        loop {
                            // few failures are enough; later ones mostly repeat them
                            if n_found.load(Ordering::Relaxed) >= max_found {
                                break;
                            }
                            let k = next.fetch_add(1, Ordering::Relaxed);
                            if k >= total {
                                break;
                            }
                            let (mut si, mut idx) = (0, k);
                            for (s, n) in jobs {
                                if idx < *n {
                                    si = *s;
                                    break;
                                }
                                idx -= n;
                            }
                            let stream = &prop.streams[si];
                            *slots[w].lock().unwrap() = (Instant::now(), si, idx);
                            let mut rec = [0u8; 16];
                            rec[..8].copy_from_slice(&(si as u64 + 1).to_le_bytes());
                            rec[8..].copy_from_slice(&idx.to_le_bytes());
                            let _ = progress.write_at(&rec, 16 * w as u64);
                            let mut src = Src::random(mix(env.seed, prop.id, stream.name, idx));
                            ctx.nontrivial = None;
                            ctx.sample = None;
                            let r = run_case(stream, &mut src, &mut ctx);
                            local.evaluations += 1;
                            *local.per_stream.entry(stream.name.into()).or_insert(0) += 1;
                            if let Some(h) = ctx.nontrivial {
                                local.nontrivial_cases += 1;
                                let mut hh = std::collections::hash_map::DefaultHasher::new();
                                (si, h).hash(&mut hh);
                                local.nontrivial.insert(hh.finish());
                                if idx < 3
                                    && let Some(s) = ctx.sample.take()
                                {
                                    let s: String = s.chars().take(700).collect();
                                    local.samples.push((((si as u64) << 32) | idx, format!("[{}] {}", stream.name, s)));
                                }
                            }
                            if let Err(f) = r {
                                if known_sigs.contains(&f.sig) {
                                    *local.known_hits.entry(f.sig).or_insert(0) += 1;
                                } else {
                                    n_found.fetch_add(1, Ordering::Relaxed);
                                    let mut m = found.lock().unwrap();
                                    let e = m.entry((si, f.sig.clone()));
                                    match e {
                                        std::collections::hash_map::Entry::Occupied(mut o) => {
                                            if o.get().idx > idx {
                                                o.insert(Found { stream: si, idx, tape: src.tape, fail: f });
                                            }
                                        }
                                        std::collections::hash_map::Entry::Vacant(v) => {
                                            v.insert(Found { stream: si, idx, tape: src.tape, fail: f });
                                        }
                                    }
                                }
                            }
                        }
                        slots[w].lock().unwrap().1 = usize::MAX;
                        for (k, v) in std::mem::take(&mut ctx.labels) {
                            *local.labels.entry(k).or_insert(0) += v;
                        }
                        let mut t = totals.lock().unwrap();
                        t.evaluations += local.evaluations;
                        t.nontrivial_cases += local.nontrivial_cases;
                        t.nontrivial.extend(local.nontrivial);
                        for (k, v) in local.labels {
                            *t.labels.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in local.known_hits {
                            *t.known_hits.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in local.per_stream {
                            *t.per_stream.entry(k).or_insert(0) += v;
                        }
                        t.samples.extend(local.samples);
                    })
                    .unwrap(),
            );
        }
        for h in hs {
            if h.join().is_err() {
                eprintln!("a worker thread died");
                std::process::exit(3);
            }
        }
        done.store(true, Ordering::Relaxed);
    });
    let mut t = totals.into_inner().unwrap();
    let mut found: Vec<Found> = found.into_inner().unwrap().into_values().collect();
    found.sort_by_key(|f| (f.stream, f.idx));
    // 3. shrink and report
    let mut violations = 0;
    let mut lines = vec![];
    let max_report = std::env::var("VT_MAX").ok().and_then(|s| s.parse().ok()).unwrap_or(4usize);
    for (k, f) in fixed_broken {
        violations += 1;
        let path = write_replay(prop, &format!("finding-{}", k.id), 0, env.seed, &[], &f);
        print!("{}", preview(&f));
        lines.push(format!("VIOLATION property={} replay={}", prop.id, path.display()));
    }
    let n_distinct = found.len();
    let shrunk: Vec<(usize, u64, Vec<u32>, Fail)> = std::thread::scope(|sc| {
        let hs: Vec<_> = found
            .into_iter()
            .take(max_report)
            .enumerate()
            .map(|(i, f)| {
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(sc, move || {
                        let mut ctx = env.ctx(100 + i);
                        let (tape, fl) = (f.tape.clone(), f.fail.clone());
                        let shrunk = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            shrink(&prop.streams[f.stream], f.tape, f.fail, &mut ctx)
                        }));
                        let (tape, fl) = shrunk.unwrap_or((tape, fl));
                        (f.stream, f.idx, tape, fl)
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("shrinking")).collect()
    });
    for (si, idx, tape, fl) in &shrunk {
        violations += 1;
        let path = write_replay(prop, prop.streams[*si].name, *idx, env.seed, tape, fl);
        println!("[{} case {idx}]", prop.streams[*si].name);
        print!("{}", preview(fl));
        lines.push(format!("VIOLATION property={} replay={}", prop.id, path.display()));
    }
    if n_distinct > max_report {
        println!("({} further distinct failure signatures not shrunk)", n_distinct - max_report);
    }
    t.samples.sort();
    let samples: BTreeSet<String> = t.samples.iter().take(12).map(|x| x.1.clone()).collect();
    let ev = serde_json::json!({
        "property": prop.id, "tier": if env.thorough {"thorough"} else {"quick"}, "seed": env.seed, "level": "exploration",
        "coverage": {
            "evaluations": t.evaluations, "distinct_nontrivial": t.nontrivial.len(), "rule": prop.rule,
            "samples": samples, "nontrivial_cases": t.nontrivial_cases, "streams": t.per_stream, "labels": t.labels,
            "known_finding_hits": t.known_hits, "known_findings_reproduced": known_seen,
        },
        "assumptions": prop.assumptions, "wall_s": (t0.elapsed().as_secs_f64()*100.0).round()/100.0, "violations": violations,
    });
    write_evidence(prop.id, &ev);
    println!(
        "{}: {} cases, {} non-trivial ({} distinct), known hits {:?}, {:.1}s",
        prop.id, t.evaluations, t.nontrivial_cases, t.nontrivial.len(), t.known_hits, t0.elapsed().as_secs_f64()
    );
    if std::env::var_os("VT_LABELS").is_some() {
        for (k, v) in &t.labels {
            println!("    {v:>8}  {k}");
        }
    }
    let _ = std::io::stdout().flush();
    for l in &lines {
        println!("{l}");
    }
    if violations > 0 {
        return 1;
    }
    if t.evaluations > 0 && t.nontrivial_cases * 1000 < prop.min_nontrivial * t.evaluations {
        eprintln!("{}: only {} of {} cases are non-trivial: the generator is not doing its job", prop.id, t.nontrivial_cases, t.evaluations);
        return 4;
    }
    0
}
