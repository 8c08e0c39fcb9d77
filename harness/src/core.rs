//! Exploration engine: deterministic enumeration of behaviours, sharded over
//! threads, every behaviour executed on the real library and judged by a
//! reference model.  A case is one behaviour (a history of document lines, of
//! operations or of configuration choices), identified by its index in the
//! enumeration.
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::os::unix::fs::FileExt as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub const SHARDS: u64 = 8;
/// a single behaviour running longer than this is reported as a hang
const HANG_S: u64 = 60;
/// exploration stops here even if bounds are not exhausted (reported as such)
const BUDGET_QUICK_S: u64 = 420;
const BUDGET_THOROUGH_S: u64 = 6 * 3600;
const MAX_VIOL: usize = 5;

#[derive(Clone, Debug)]
pub struct Violation {
    pub idx: u64,
    pub desc: String,
    pub msg: String,
    pub docs: Vec<(String, String)>,
}

pub struct Shared {
    pub prop: String,
    pub thorough: bool,
    pub only: Option<u64>,
    pub skip: Vec<u64>,
    pub start: Instant,
    pub stop: AtomicBool,
    pub truncated: AtomicBool,
    pub viol: Mutex<Vec<Violation>>,
    pub samples: Mutex<Vec<serde_json::Value>>,
    pub scratch: PathBuf,
    known: Vec<Known>,
    pub busy: Vec<AtomicU64>, // 0 idle, else ms since start + 1
    pub cur: Vec<AtomicU64>,
}

/// Per-shard handle given to a check.
pub struct Sh {
    pub g: Arc<Shared>,
    pub shard: u64,
    idx: u64,
    pub states: HashSet<u64>,
    pub extra_states: u64,
    pub steps: u64,
    pub runs: u64,
    pub comparisons: u64,
    pub notes: Vec<String>,
    pub dir: PathBuf,
    cur_file: std::fs::File,
}

/// Recorder for one behaviour.
#[derive(Default)]
pub struct Tr {
    pub steps: u64,
    pub comparisons: u64,
    pub states: Vec<u64>,
    /// states distinct by construction, counted instead of stored
    pub extra_states: u64,
    pub docs: Vec<(String, String)>,
    pub dir: PathBuf,
}

pub type R = Result<(), String>;

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x0000_0100_0000_01b3);
        }
    }
}
pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv(0xcbf2_9ce4_8422_2325);
    t.hash(&mut h);
    let mut x = h.0;
    x ^= x >> 32;
    x = x.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^ (x >> 29)
}

impl Tr {
    /// a model state reached along this behaviour
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.states.push(hash(t));
    }
    /// n transitions taken
    pub fn step(&mut self, n: usize) {
        self.steps += n as u64;
    }
    pub fn doc(&mut self, name: &str, text: impl AsRef<[u8]>) {
        self.docs
            .push((name.to_string(), String::from_utf8_lossy(text.as_ref()).into_owned()));
    }
    /// compare implementation and model
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, imp: T, model: T) -> R {
        self.comparisons += 1;
        if imp == model {
            Ok(())
        } else {
            Err(format!("{what}: library gave {} but the model says {}", short(&imp), short(&model)))
        }
    }
    pub fn ok(&mut self, cond: bool, msg: impl FnOnce() -> String) -> R {
        self.comparisons += 1;
        if cond {
            Ok(())
        } else {
            Err(msg())
        }
    }
}

pub fn short<T: std::fmt::Debug>(t: &T) -> String {
    let s = format!("{t:?}");
    if s.len() > 3000 {
        let mut e = 3000;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}…", &s[..e])
    } else {
        s
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {loc}: {msg}"));
    }));
}

/// Run a library call, turning a panic into an error message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

impl Sh {
    pub fn thorough(&self) -> bool {
        self.g.thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.g.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn stopped(&self) -> bool {
        self.g.stop.load(Ordering::Relaxed)
    }
    /// One behaviour.  `desc` is only evaluated when needed.
    pub fn case(&mut self, desc: impl Fn() -> String, f: impl FnOnce(&mut Tr) -> R) {
        let idx = self.idx;
        self.idx += 1;
        match self.g.only {
            Some(o) => {
                if o != idx {
                    return;
                }
            }
            None => {
                if idx % SHARDS != self.shard || self.g.skip.contains(&idx) {
                    return;
                }
            }
        }
        if self.stopped() {
            return;
        }
        let el = self.g.start.elapsed().as_millis() as u64;
        let budget = if self.g.thorough { BUDGET_THOROUGH_S } else { BUDGET_QUICK_S };
        if el / 1000 > budget && self.g.only.is_none() {
            self.g.truncated.store(true, Ordering::Relaxed);
            self.g.stop.store(true, Ordering::Relaxed);
            return;
        }
        let s = self.shard as usize;
        self.g.cur[s].store(idx, Ordering::Relaxed);
        self.g.busy[s].store(el + 1, Ordering::Relaxed);
        let _ = self.cur_file.write_at(format!("{idx:<20}").as_bytes(), 0);
        let mut t = Tr { dir: self.dir.clone(), ..Tr::default() };
        let r = match guard(|| f(&mut t)) {
            Ok(r) => r,
            Err(p) => Err(p),
        };
        self.g.busy[s].store(0, Ordering::Relaxed);
        self.runs += 1;
        self.steps += t.steps;
        self.comparisons += t.comparisons;
        self.states.extend(t.states.iter());
        self.extra_states += t.extra_states;
        if self.runs <= 2 || (self.runs.is_power_of_two() && self.runs > 500) {
            let mut g = self.g.samples.lock().unwrap();
            if g.len() < 12 {
                let docs: Vec<_> = t.docs.iter().map(|(n, d)| serde_json::json!({"name": n, "text": clip(d, 600)})).collect();
                g.push(serde_json::json!({"case": idx, "behaviour": clip(&desc(), 400), "documents": docs}));
            }
        }
        if let Err(msg) = r {
            let desc = desc();
            let mut v = self.g.viol.lock().unwrap();
            let hit = |d: &str, m: &str| {
                let hay = format!("{d} :: {m}");
                self.g.known.iter().position(|k| hay.contains(&k.pat))
            };
            let k = hit(&desc, &msg);
            if k.is_some() && v.iter().any(|o| hit(&o.desc, &o.msg) == k) {
                return; // one witness per known finding is enough
            }
            v.push(Violation { idx, desc, msg, docs: t.docs });
            if v.iter().filter(|o| hit(&o.desc, &o.msg).is_none()).count() >= MAX_VIOL {
                self.g.stop.store(true, Ordering::Relaxed);
            }
        }
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…", &s[..e])
}

// ------------------------------------------------------------ enumerators

/// All sequences over 0..n of length lo..=hi, in depth-first order.
pub fn seqs(n: usize, lo: usize, hi: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(n: usize, lo: usize, hi: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if cur.len() >= lo {
            f(cur);
        }
        if cur.len() == hi {
            return;
        }
        for i in 0..n {
            cur.push(i);
            go(n, lo, hi, cur, f);
            cur.pop();
        }
    }
    go(n, lo, hi, &mut Vec::new(), f);
}

/// All tuples with component i ranging over 0..dims[i].
pub fn prod(dims: &[usize], f: &mut dyn FnMut(&[usize])) {
    if dims.contains(&0) {
        return;
    }
    let mut cur = vec![0; dims.len()];
    loop {
        f(&cur);
        let mut i = dims.len();
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            cur[i] += 1;
            if cur[i] < dims[i] {
                break;
            }
            cur[i] = 0;
        }
    }
}

/// All permutations of 0..n.
pub fn perms(n: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(n: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if cur.len() == n {
            f(cur);
            return;
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                go(n, cur, f);
                cur.pop();
            }
        }
    }
    go(n, &mut Vec::new(), f);
}

/// All subsets of 0..n with at most k elements, as sorted index lists.
pub fn subsets(n: usize, k: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(n: usize, k: usize, from: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        f(cur);
        if cur.len() == k {
            return;
        }
        for i in from..n {
            cur.push(i);
            go(n, k, i + 1, cur, f);
            cur.pop();
        }
    }
    go(n, k, 0, &mut Vec::new(), f);
}

// ------------------------------------------------------------ driver

pub struct Check {
    pub id: &'static str,
    pub run: fn(&mut Sh),
    pub rule: &'static str,
    pub assumptions: &'static str,
}

pub struct Outcome {
    pub states: u64,
    pub steps: u64,
    pub runs: u64,
    pub comparisons: u64,
    pub exhaustive: bool,
    pub samples: Vec<serde_json::Value>,
    pub viol: Vec<Violation>,
    pub wall: f64,
}

fn root_dir() -> PathBuf {
    PathBuf::from(std::env::var("VPMC_ROOT").unwrap_or_else(|_| "/verif".into()))
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

/// child process: explore and print the outcome as JSON on stdout
pub fn child(c: &Check, thorough: bool, only: Option<u64>, skip: Vec<u64>, scratch: &Path, repeat: u32) {
    let lim = [26u64 << 30, 26u64 << 30];
    // RLIMIT_AS = 9
    unsafe {
        setrlimit(9, &lim);
    }
    install_hook();
    let mut last = None;
    for _ in 0..repeat {
        let o = explore(c, thorough, only, skip.clone(), scratch);
        let bad = !o.viol.is_empty();
        last = Some(o);
        if bad {
            break;
        }
    }
    let o = last.unwrap();
    let j = serde_json::json!({
        "states": o.states, "steps": o.steps, "runs": o.runs, "comparisons": o.comparisons,
        "exhaustive": o.exhaustive, "samples": o.samples, "wall": o.wall,
        "viol": o.viol.iter().map(|v| serde_json::json!({"idx": v.idx, "desc": v.desc, "msg": v.msg, "docs": v.docs})).collect::<Vec<_>>(),
    });
    let mut out = std::io::stdout().lock();
    let _ = writeln!(out, "{j}");
}

fn explore(c: &Check, thorough: bool, only: Option<u64>, skip: Vec<u64>, scratch: &Path) -> Outcome {
    let g = Arc::new(Shared {
        prop: c.id.into(),
        thorough,
        only,
        skip,
        start: Instant::now(),
        stop: AtomicBool::new(false),
        truncated: AtomicBool::new(false),
        viol: Mutex::default(),
        samples: Mutex::default(),
        scratch: scratch.into(),
        known: known().into_iter().filter(|k| k.prop == c.id).collect(),
        busy: (0..SHARDS).map(|_| AtomicU64::new(0)).collect(),
        cur: (0..SHARDS).map(|_| AtomicU64::new(0)).collect(),
    });
    let done = Arc::new(AtomicBool::new(false));
    // progress file, so that the parent can name the case after an abort
    let wd = {
        let g = g.clone();
        let done = done.clone();
        std::thread::spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(20));
                let now = g.start.elapsed().as_millis() as u64;
                for s in 0..SHARDS as usize {
                    let b = g.busy[s].load(Ordering::Relaxed);
                    if b != 0 && now > b + HANG_S * 1000 {
                        let idx = g.cur[s].load(Ordering::Relaxed);
                        println!("HANG {idx}");
                        std::process::exit(77);
                    }
                }
            }
        })
    };
    // current case of each shard, kept in a memory-mapped-like file via pwrite only on abort-prone checks
    let n = if only.is_some() { 1 } else { SHARDS };
    let mut handles = vec![];
    for shard in 0..n {
        let g = g.clone();
        let run = c.run;
        handles.push(
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    let dir = g.scratch.join(format!("s{shard}"));
                    let _ = std::fs::create_dir_all(&dir);
                    let cur_file = std::fs::File::create(g.scratch.join(format!("cur{shard}"))).unwrap();
                    let mut sh = Sh {
                        cur_file,
                        g,
                        shard,
                        idx: 0,
                        states: HashSet::new(),
                        extra_states: 0,
                        steps: 0,
                        runs: 0,
                        comparisons: 0,
                        notes: vec![],
                        dir,
                    };
                    if let Err(p) = guard(|| run(&mut sh)) {
                        // outside any case: an error of the check itself
                        eprintln!("check error: {p}");
                        std::process::exit(3);
                    }
                    (sh.states, sh.steps, sh.runs, sh.comparisons, sh.extra_states)
                })
                .unwrap(),
        );
    }
    let (mut st, mut steps, mut runs, mut cmp, mut extra) = (HashSet::new(), 0, 0, 0, 0);
    for h in handles {
        let (a, b, c, d, e) = h.join().unwrap();
        extra += e;
        st.extend(a);
        steps += b;
        runs += c;
        cmp += d;
    }
    done.store(true, Ordering::Relaxed);
    let _ = wd.join();
    let mut viol = g.viol.lock().unwrap().clone();
    viol.sort_by_key(|v| v.idx);
    let samples = g.samples.lock().unwrap().clone();
    Outcome {
        states: st.len() as u64 + extra,
        steps,
        runs,
        comparisons: cmp,
        exhaustive: !g.truncated.load(Ordering::Relaxed) && !g.stop.load(Ordering::Relaxed),
        samples,
        viol,
        wall: g.start.elapsed().as_secs_f64(),
    }
}

#[derive(Clone)]
struct Known {
    prop: String,
    pat: String,
    what: String,
}

fn known() -> Vec<Known> {
    // lines: finding: property=<id> match="<text that must occur in the case and message>" <what fails>
    let mut v = vec![];
    let s = std::fs::read_to_string(root_dir().join("known_findings.txt")).unwrap_or_default();
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("finding: property=") {
            let (id, r) = r.split_once(' ').unwrap_or((r, ""));
            if let Some(r) = r.strip_prefix("match=\"") {
                if let Some((m, w)) = r.split_once("\" ") {
                    v.push(Known { prop: id.into(), pat: m.into(), what: w.into() });
                }
            }
        }
    }
    v
}

/// parent process; returns exit code
pub fn parent(c: &Check, thorough: bool, only: Option<u64>) -> i32 {
    let tier = if thorough { "thorough" } else { "quick" };
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let t0 = Instant::now();
    let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    let scratch = base.join(format!("vpmc-{}-{}", c.id, std::process::id()));
    if std::fs::create_dir_all(&scratch).is_err() {
        eprintln!("cannot create scratch");
        return 2;
    }
    let exe = std::env::current_exe().unwrap();
    let spawn = |only: Option<u64>, repeat: u32, skip: &[u64]| {
        let mut cmd = std::process::Command::new(&exe);
        cmd.arg("child").arg(c.id).arg(tier).arg(&scratch);
        cmd.arg(only.map_or("-".to_string(), |o| o.to_string()));
        cmd.arg(repeat.to_string());
        cmd.arg(skip.iter().map(u64::to_string).collect::<Vec<_>>().join(","));
        cmd.env("RUST_BACKTRACE", "0");
        cmd.output().unwrap()
    };
    let mut viols: Vec<Violation> = vec![];
    let mut cov = serde_json::Value::Null;
    let out = spawn(only, if only.is_some() { 100 } else { 1 }, &[]);
    let so = String::from_utf8_lossy(&out.stdout).into_owned();
    let mut err = None;
    if out.status.success() {
        match so.lines().last().and_then(|l| serde_json::from_str::<serde_json::Value>(l).ok()) {
            Some(j) => {
                for v in j["viol"].as_array().unwrap() {
                    viols.push(Violation {
                        idx: v["idx"].as_u64().unwrap(),
                        desc: v["desc"].as_str().unwrap().into(),
                        msg: v["msg"].as_str().unwrap().into(),
                        docs: serde_json::from_value(v["docs"].clone()).unwrap(),
                    });
                }
                cov = j;
            }
            None => err = Some("no result from exploration".to_string()),
        }
    } else if let Some(h) = so.lines().find_map(|l| l.strip_prefix("HANG ")) {
        viols.push(Violation {
            idx: h.parse().unwrap_or(0),
            desc: "case".into(),
            msg: format!("did not terminate within {HANG_S} s"),
            docs: vec![],
        });
    } else if out.status.code() == Some(3) {
        err = Some(String::from_utf8_lossy(&out.stderr).into_owned());
    } else {
        // aborted (stack overflow, out of memory, abort): name the case
        let mut found = false;
        let st = format!("{:?}", out.status);
        for s in 0..SHARDS {
            let cur = std::fs::read_to_string(scratch.join(format!("cur{s}"))).unwrap_or_default();
            if let Ok(i) = cur.trim().parse::<u64>() {
                let o = spawn(Some(i), 1, &[]);
                if !o.status.success() {
                    viols.push(Violation {
                        idx: i,
                        desc: "case".into(),
                        msg: format!("process aborted: {:?} {}", o.status, clip(&String::from_utf8_lossy(&o.stderr), 300)),
                        docs: vec![],
                    });
                    found = true;
                }
            }
        }
        if !found {
            viols.push(Violation {
                idx: 0,
                desc: "exploration".into(),
                msg: format!("process aborted: {st} {}", clip(&String::from_utf8_lossy(&out.stderr), 600)),
                docs: vec![],
            });
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    if let Some(e) = err {
        eprintln!("check error: {e}");
        return 2;
    }
    let ks = known();
    let mut fresh = vec![];
    let mut seen_known: Vec<&Known> = vec![];
    for v in &viols {
        let hay = format!("{} :: {}", v.desc, v.msg);
        if let Some(k) = ks.iter().find(|k| k.prop == c.id && hay.contains(&k.pat)) {
            if !seen_known.iter().any(|x| x.pat == k.pat) {
                seen_known.push(k);
            }
        } else {
            fresh.push(v.clone());
        }
    }
    for k in &seen_known {
        println!("KNOWN-FINDING: property={} {}", c.id, k.what);
    }
    if only.is_none() {
        let mut samples = cov["samples"].as_array().cloned().unwrap_or_default();
        samples.truncate(8);
        let ev = serde_json::json!({
            "property": c.id, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": cov["states"].as_u64().unwrap_or(0),
                "transitions": cov["steps"].as_u64().unwrap_or(0),
                "traces_validated_against_impl": cov["runs"].as_u64().unwrap_or(0),
                "model_vs_library_comparisons": cov["comparisons"].as_u64().unwrap_or(0),
                "exhaustive": cov["exhaustive"].as_bool().unwrap_or(false),
                "samples": if samples.is_empty() { vec![serde_json::json!("none: exploration ended early")] } else { samples },
                "rule": c.rule,
            },
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": fresh.len(),
            "assumptions": [c.assumptions],
        });
        let dir = root_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", c.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    if fresh.is_empty() {
        println!(
            "OK property={} tier={tier} states={} transitions={} traces={} exhaustive={} wall={:.1}s",
            c.id, cov["states"], cov["steps"], cov["runs"], cov["exhaustive"], t0.elapsed().as_secs_f64()
        );
        return 0;
    }
    let rdir = root_dir().join("replays");
    let _ = std::fs::create_dir_all(&rdir);
    let mut first = true;
    for v in &fresh {
        let path = rdir.join(format!("{}-{tier}-{}.json", c.id, v.idx));
        let j = serde_json::json!({"property": c.id, "tier": tier, "case": v.idx, "behaviour": v.desc, "message": v.msg, "documents": v.docs});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
        if first {
            println!("VIOLATION property={} replay={}", c.id, path.display());
            first = false;
        }
        let mut m = String::new();
        let _ = write!(m, "  case {}: {} -- {}", v.idx, clip(&v.desc, 500), clip(&v.msg, 1500));
        println!("{m}");
    }
    1
}
