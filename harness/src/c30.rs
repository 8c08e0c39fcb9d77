//! Concurrent lookups agree with sequential ones.
//!
//! Stateless model checking of the real library: its threads are real threads
//! executing the compiled code, but which of them runs is decided here.  A
//! thread is advanced one machine instruction at a time (processor trap flag),
//! so a thread can be held before any instruction; while it is held another
//! thread runs its whole lookup, or as far as it gets before it has to wait for
//! the held one.  All places to hold a thread are enumerated, so every schedule
//! with one preemption is executed (and, thorough, schedules with two).
use crate::core::{guard, Check, Sh};
use crate::corpus;
use crate::loads::load;
use crate::sectors::{sample, wgs, P};
use geo::{Line, Point};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use vatsim_parser::adaptation::colours::Colour;
use vatsim_parser::adaptation::locations::airways::AirwayFix;
use vatsim_parser::adaptation::locations::Fix;
use vatsim_parser::adaptation::sectors::Volume;
use vatsim_parser::adaptation::Adaptation;

pub const CHECK: Check = Check {
    id: "C30",
    run,
    rule: "one adaptation shared by two or three threads, its index not built yet or built: for every pair of lookups (sector, volumes at a point, volumes near a line, copying and asking the copy, serialising, airway expansion, designators, colours), the first thread is held before every single machine instruction of its lookup (also of the building of the index), and the others then run to their end or until they wait for it; for some pairs the second, too, is held on a raster of places (thorough: a finer one, and more pairs) while the first goes on to its end",
    assumptions: "schedules with one or two preemptions at machine instructions, sequentially consistent memory; the number of places varies by a few between runs (hash keys and the allocator)",
};

// ------------------------------------------------------------- scheduler

/// the last one stands for the controlling thread
const THREADS: usize = 3;
#[repr(C)]
struct Ctl {
    /// single-stepped: held after so many instructions; u64::MAX: not stepped
    limit: AtomicU64,
    count: AtomicU64,
    /// inside the lookups
    active: AtomicBool,
    /// one instruction is being executed in place of the breakpoint
    over: AtomicBool,
    held: AtomicBool,
    go: AtomicI32,
    started: AtomicBool,
    done: AtomicBool,
    tid: AtomicI32,
    job: AtomicI32,
    /// thread pointer
    thread: AtomicUsize,
}
static CTL: [Ctl; THREADS + 1] = [const {
    Ctl {
        limit: AtomicU64::new(0),
        count: AtomicU64::new(0),
        active: AtomicBool::new(false),
        over: AtomicBool::new(false),
        held: AtomicBool::new(false),
        go: AtomicI32::new(0),
        started: AtomicBool::new(false),
        done: AtomicBool::new(false),
        tid: AtomicI32::new(0),
        job: AtomicI32::new(0),
        thread: AtomicUsize::new(0),
    }
}; THREADS + 1];
/// the shared adaptation; passed by address, so that the check still compiles
/// if the type is no longer meant to be shared
static SHARED: AtomicUsize = AtomicUsize::new(0);
static WORK: [Mutex<(Vec<Op>, Vec<String>)>; THREADS] = [const { Mutex::new((vec![], vec![])) }; THREADS];


fn futex_wait(a: &AtomicI32, v: i32) {
    unsafe {
        libc::syscall(libc::SYS_futex, a as *const _, 128, v, std::ptr::null::<u8>());
    }
}
fn futex_wake(a: &AtomicI32) {
    unsafe {
        libc::syscall(libc::SYS_futex, a as *const _, 129, i32::MAX);
    }
}

macro_rules! futex {
    ($p:expr, $op:expr, $v:expr) => {
        std::arch::asm!("syscall", inlateout("rax") 202usize => _, in("rdi") $p, in("rsi") $op as usize, in("rdx") $v as usize, in("r10") 0usize, lateout("rcx") _, lateout("r11") _)
    };
}
macro_rules! raw {
    ($s:ident as $t:ty) => {
        *(&raw const $s as *mut $t)
    };
}

/// one at a time changes the breakpoint or the byte under it
static LOCK: AtomicI32 = AtomicI32::new(0);
macro_rules! locked {
    ($b:block) => {{
        std::arch::asm!("2: mov {0:e}, 1", "xchg dword ptr [{1}], {0:e}", "test {0:e}, {0:e}", "jz 3f", "pause", "jmp 2b", "3:", out(reg) _, in(reg) &raw const LOCK as usize);
        $b
        std::arch::asm!("mov dword ptr [{0}], 0", in(reg) &raw const LOCK as usize);
    }};
}

/// the addresses a stepped thread executed, recorded on request
static TRACE: AtomicUsize = AtomicUsize::new(0);
const TRACE_MAX: usize = 1 << 20;

/// one breakpoint at a time: the owner is held when it gets there for the
/// `skip`-th time, every other thread passes
static BP: AtomicUsize = AtomicUsize::new(0);
static BP_OWNER: AtomicUsize = AtomicUsize::new(0);
static BP_SKIP: AtomicU64 = AtomicU64::new(0);
static BP_BYTE: AtomicUsize = AtomicUsize::new(0);

unsafe fn poke(addr: usize, b: u8) {
    unsafe { (addr as *mut u8).write_volatile(b) };
    std::sync::atomic::fence(SeqCst);
}
fn arm(owner: usize, addr: usize, skip: u64) {
    unsafe {
        libc::mprotect((addr & !4095) as *mut libc::c_void, 4096, libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC);
        BP_OWNER.store(owner, SeqCst);
        BP_SKIP.store(skip, SeqCst);
        BP_BYTE.store((addr as *const u8).read_volatile() as usize, SeqCst);
        BP.store(addr, SeqCst);
        poke(addr, 0xcc);
    }
}
fn disarm() {
    unsafe {
        locked!({
            let a = raw!(BP as usize);
            if a != 0 {
                raw!(BP as usize) = 0;
                *(a as *mut u8) = raw!(BP_BYTE as usize) as u8;
            }
        });
    }
}
/// can a breakpoint be set here
fn patchable(addr: usize) -> bool {
    let page = (addr & !4095) as *mut libc::c_void;
    unsafe {
        if libc::mprotect(page, 4096, libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC) != 0 {
            return false;
        }
    }
    true
}

/// the same memory without the accessor functions of atomics: the handler must
/// not execute any code that the library, too, may use, or it could meet the
/// breakpoint itself
#[repr(C)]
struct Raw {
    limit: u64,
    count: u64,
    active: u8,
    over: u8,
    held: u8,
    go: i32,
    started: u8,
    done: u8,
    tid: i32,
    job: i32,
    thread: usize,
}
extern "C" fn on_trap(_: i32, info: *mut libc::siginfo_t, u: *mut libc::c_void) {
    unsafe {
        let regs = &raw mut (*(u as *mut libc::ucontext_t)).uc_mcontext.gregs as *mut [i64; 23];
        let me: usize;
        std::arch::asm!("mov {}, fs:0", out(reg) me);
        let mut s = 0;
        let ctl = &raw const CTL as *mut [Raw; THREADS + 1];
        while s < THREADS && (*ctl)[s].thread != me {
            s += 1;
        }
        let c = &raw mut (*ctl)[s];
        let rip = (*regs)[16] as usize;
        let mut step = false;
        let mut hold = false;
        let mut back = false;
        let trap = (*info).si_code == 0x80;
        locked!({
            let bp = raw!(BP as usize);
            if (*c).over != 0 {
                // the instruction in place of the breakpoint has been executed
                (*c).over = 0;
                if bp != 0 {
                    *(bp as *mut u8) = 0xcc;
                }
            }
            if bp != 0 && rip == bp + 1 && trap {
                back = true;
                if s == raw!(BP_OWNER as usize) && (*c).active != 0 && raw!(BP_SKIP as u64) == 0 {
                    raw!(BP as usize) = 0;
                    hold = true;
                } else {
                    if s == raw!(BP_OWNER as usize) && (*c).active != 0 {
                        raw!(BP_SKIP as u64) -= 1;
                    }
                    (*c).over = 1;
                    step = true;
                }
                *(bp as *mut u8) = raw!(BP_BYTE as usize) as u8;
            } else if trap && *((rip - 1) as *const u8) != 0xcc {
                // a breakpoint removed meanwhile
                back = true;
            }
        });
        if back {
        } else if (*c).active != 0 && (*c).limit != u64::MAX {
            let n = (*c).count;
            let t = raw!(TRACE as usize) as *mut usize;
            if t as usize != 0 && (n as usize) < TRACE_MAX {
                *((t as usize + 8 * n as usize) as *mut usize) = rip;
            }
            if n == (*c).limit {
                hold = true;
                (*c).limit = u64::MAX;
            } else {
                (*c).count = n + 1;
                step = true;
            }
        }
        if back {
            (*regs)[16] = rip as i64 - 1;
        }
        if hold {
            (*c).held = 1;
            let event = &raw const EVENT as *mut i32;
            std::arch::asm!("lock inc dword ptr [{}]", in(reg) event);
            futex!(event, 129, i32::MAX);
            loop {
                let go: i32;
                std::arch::asm!("mov {0:e}, dword ptr [{1}]", out(reg) go, in(reg) &raw const (*c).go);
                if go != 0 {
                    break;
                }
                futex!(&raw const (*c).go, 128, 0);
            }
            (*c).held = 0;
            // meanwhile another thread's breakpoint may be where this one was held
        }
        if step {
            (*regs)[17] |= 0x100;
        } else {
            (*regs)[17] &= !0x100;
        }
    }
}

#[inline(never)]
fn stepped(s: usize, f: impl FnOnce()) {
    let step = CTL[s].limit.load(SeqCst) != u64::MAX;
    CTL[s].count.store(0, SeqCst);
    CTL[s].active.store(true, SeqCst);
    if step {
        unsafe { std::arch::asm!("int3") };
    }
    f();
    CTL[s].active.store(false, SeqCst);
}

fn worker(s: usize) {
    let c = &CTL[s];
    let me: usize;
    unsafe { std::arch::asm!("mov {}, fs:0", out(reg) me) };
    c.thread.store(me, SeqCst);
    c.tid.store(unsafe { libc::syscall(libc::SYS_gettid) } as i32, SeqCst);
    let mut last = 0;
    loop {
        while c.job.load(SeqCst) == last {
            futex_wait(&c.job, last);
        }
        last = c.job.load(SeqCst);
        c.started.store(true, SeqCst);
        let ops = WORK[s].lock().unwrap().0.clone();
        let mut raw: Vec<Answer> = Vec::with_capacity(ops.len());
        let a = unsafe { &*(SHARED.load(SeqCst) as *const Adaptation) };
        let r = guard(|| {
            stepped(s, || {
                for o in &ops {
                    raw.push(o.run(a));
                }
            });
        });
        c.active.store(false, SeqCst);
        let mut out: Vec<String> = raw.into_iter().map(Answer::text).collect();
        if let Err(p) = r {
            out.push(p);
        }
        WORK[s].lock().unwrap().1 = out;
        c.done.store(true, SeqCst);
        tell();
    }
}

#[derive(PartialEq, Debug)]
enum Stop {
    Done,
    Held,
    /// waits for something inside the library
    Waits,
}

/// no allocation here: a held thread may hold the allocator's locks
fn sleeps(tid: i32) -> bool {
    let mut path = *b"/proc/self/task/0000000000/stat\0";
    let (mut i, mut n) = (25, tid);
    while i >= 16 {
        path[i] = b'0' + (n % 10) as u8;
        n /= 10;
        i -= 1;
    }
    // leading zeros are not part of the name
    let z = path[16..25].iter().take_while(|c| **c == b'0').count();
    path.copy_within(16 + z.., 16);
    let mut buf = [0u8; 512];
    let n = unsafe {
        let f = libc::open(path.as_ptr().cast(), libc::O_RDONLY);
        if f < 0 {
            return false;
        }
        let n = libc::read(f, buf.as_mut_ptr().cast(), buf.len());
        libc::close(f);
        n.max(0) as usize
    };
    buf[..n].iter().rposition(|c| *c == b')').is_some_and(|i| buf.get(i + 2) == Some(&b'S'))
}

/// counts holds and ends
static EVENT: AtomicI32 = AtomicI32::new(0);
fn tell() {
    EVENT.fetch_add(1, SeqCst);
    futex_wake(&EVENT);
}
/// sleep until a thread stops or ends, or a fraction of a millisecond
fn listen(seen: i32) -> bool {
    let t = libc::timespec { tv_sec: 0, tv_nsec: 200_000 };
    unsafe { libc::syscall(libc::SYS_futex, &raw const EVENT, 128, seen, &raw const t) };
    EVENT.load(SeqCst) != seen
}

/// let a thread go on and wait until it stops again
fn wait(s: usize, limit: Duration) -> Stop {
    let t0 = Instant::now();
    let c = &CTL[s];
    let mut asleep = 0;
    loop {
        let seen = EVENT.load(SeqCst);
        if c.done.load(SeqCst) {
            return Stop::Done;
        }
        if c.held.load(SeqCst) {
            return Stop::Held;
        }
        if asleep == 2 {
            return Stop::Waits;
        }
        // for most lookups a few turns are enough
        if t0.elapsed() < Duration::from_micros(20) {
            std::hint::spin_loop();
            continue;
        }
        if listen(seen) {
            asleep = 0;
            continue;
        }
        asleep = if c.started.load(SeqCst) && sleeps(c.tid.load(SeqCst)) { asleep + 1 } else { 0 };
        // turning in circles is a way of waiting, too
        if t0.elapsed() > limit {
            return Stop::Waits;
        }
    }
}
/// where a thread is held
#[derive(Clone, Copy, Debug, PartialEq)]
enum Place {
    Nowhere,
    /// before the n-th instruction, found by stepping
    Step(u64),
    /// before the instruction at an address, after passing it some times
    At(usize, u64),
}
fn start(s: usize, at: Place) {
    let c = &CTL[s];
    c.limit.store(if let Place::Step(k) = at { k } else { u64::MAX }, SeqCst);
    c.go.store(0, SeqCst);
    c.held.store(false, SeqCst);
    c.started.store(false, SeqCst);
    c.done.store(false, SeqCst);
    if let Place::At(addr, skip) = at {
        arm(s, addr, skip);
    }
    c.job.fetch_add(1, SeqCst);
    futex_wake(&c.job);
}
fn release(s: usize) {
    CTL[s].go.store(1, SeqCst);
    futex_wake(&CTL[s].go);
}
fn finish(s: usize) -> Result<Vec<String>, String> {
    let t0 = Instant::now();
    loop {
        let seen = EVENT.load(SeqCst);
        if CTL[s].done.load(SeqCst) {
            break;
        }
        listen(seen);
        if t0.elapsed() > Duration::from_secs(20) {
            return Err(format!("thread {s} waits for ever"));
        }
    }
    Ok(std::mem::take(&mut WORK[s].lock().unwrap().1))
}

// ------------------------------------------------------------- lookups

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Find(P, i32),
    At(P),
    Near(P, P),
    Copy(P, i32),
    Json,
    Airway,
    Place(&'static str),
    Paint(&'static str),
}
/// what an operation returned, turned into text only after the stepping
enum Answer {
    Sector(Option<String>),
    Volumes(Vec<(String, String)>),
    Airway(Option<Vec<(AirwayFix, bool)>>),
    Place(Option<Fix>),
    Paint(Option<Colour>),
    Text(String),
}
impl Answer {
    fn text(self) -> String {
        match self {
            Answer::Sector(s) => format!("{s:?}"),
            Answer::Volumes(mut v) => {
                v.sort();
                format!("{v:?}")
            }
            Answer::Airway(x) => format!("{x:?}"),
            Answer::Place(x) => format!("{x:?}"),
            Answer::Paint(x) => format!("{x:?}"),
            Answer::Text(s) => s,
        }
    }
}
fn pt(p: P) -> Point {
    Point(wgs(p))
}
fn ids<'a>(i: impl Iterator<Item = &'a (String, Volume)>) -> Answer {
    Answer::Volumes(i.map(|(s, v)| (s.clone(), v.id.clone())).collect())
}
impl Op {
    fn place(self) -> P {
        match self {
            Op::Find(p, _) | Op::At(p) | Op::Near(p, _) | Op::Copy(p, _) => p,
            _ => (0, 0),
        }
    }
    fn run(self, a: &Adaptation) -> Answer {
        match self {
            Op::Find(p, l) => Answer::Sector(a.find_sector(pt(p), l as f32).map(str::to_string)),
            Op::At(p) => ids(a.volumes_at(pt(p))),
            Op::Near(p, q) => ids(a.volumes_near_line(Line::new(pt(p).0, pt(q).0))),
            Op::Copy(p, l) => {
                let b = a.clone();
                Answer::Sector(b.find_sector(pt(p), l as f32).map(str::to_string))
            }
            Op::Json => Answer::Text(crate::util::js(a)["sectors"].to_string()),
            Op::Airway => Answer::Airway(a.locations.convert_designator("AAA").and_then(|f| a.locations.airways.expand_airway_segment(&f, "CCCCC", "L1", &a.locations))),
            Op::Place(d) => Answer::Place(a.locations.convert_designator(d)),
            Op::Paint(n) => Answer::Paint(a.colours.get(n, &a.settings)),
        }
    }
}

// ------------------------------------------------------------- scenarios

#[derive(Clone, Debug)]
struct Scenario {
    /// 0: index not built yet, 1: built, 2: a whole profile
    base: usize,
    /// operations of each thread; the first thread is the one held
    ops: Vec<Vec<Op>>,
    /// hold the second thread too, at every so many instructions (0: never)
    second: usize,
}

fn scenarios(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let (p, q) = ((2, 2), (12, 6));
    let cold = [Op::Find(p, 50), Op::At(q), Op::Near((0, 9), (20, 9)), Op::Copy(q, 60), Op::Json];
    let other = [Op::Find(q, 60), Op::At(p), Op::Near((20, 20), (9, 9)), Op::Copy(p, 50), Op::Json];
    let mut add = |base, ops: Vec<Vec<Op>>, second| v.push(Scenario { base, ops, second });
    for (i, a) in cold.into_iter().enumerate() {
        for (j, b) in other.into_iter().enumerate() {
            // a copy or a serialisation has too many instructions to be held at each
            if matches!((i, j), (0, 0) | (0, 3) | (1, 2) | (1, 4) | (2, 1)) || (thorough && i < 4) {
                add(0, vec![vec![a], vec![b, a]], 0);
            }
        }
    }
    add(0, vec![vec![cold[0]], vec![other[1]], vec![other[0]]], 0);
    let warm: Vec<Op> = vec![Op::Find(p, 50), Op::Find(q, 60), Op::At(q), Op::Near((0, 9), (20, 9))];
    for &a in &warm {
        for &b in &warm {
            add(1, vec![vec![a], vec![b, a]], 0);
            if thorough || a != b {
                add(1, vec![vec![a, Op::Find((a.place().0, b.place().1), 60)], vec![b]], 0);
                add(1, vec![vec![a], vec![b]], if thorough { 2 } else { 50 });
            }
        }
    }
    // questions nothing answers, so that answers kept for later are not only good ones
    let miss: Vec<Op> = vec![Op::Find((2, 90), 50), Op::Find((90, 2), 60), Op::At((12, 90)), Op::Find((2, 2), 999_999)];
    for &a in &miss {
        for &b in &miss {
            if a != b {
                // the first question afterwards is where the longitude of one
                // meets the latitude of the other
                for c in [(a.place().0, b.place().1), (b.place().0, a.place().1)] {
                    add(1, vec![vec![a, Op::Find(c, 50)], vec![b]], 0);
                }
                add(1, vec![vec![a], vec![b]], if thorough { 2 } else { 50 });
            }
        }
    }
    let rest = [Op::Airway, Op::Place("BBBBB"), Op::Place("4830N01130E"), Op::Place("AAA090010"), Op::Paint("Active_Map"), Op::Paint("Own")];
    for &a in &rest {
        for &b in &rest {
            add(2, vec![vec![a], vec![b, a]], 0);
        }
    }
    for (i, &a) in cold[..3].iter().enumerate() {
        for (j, &b) in other[..3].iter().enumerate() {
            if thorough || i == j {
                add(0, vec![vec![a], vec![b]], if thorough { 60 } else { 400 });
            }
        }
    }
    if thorough {
        add(0, vec![vec![cold[1]], vec![other[0]], vec![other[2]]], 0);
        add(0, vec![vec![cold[2]], vec![other[3]], vec![other[0]]], 0);
    }
    v
}

fn base(k: usize, dir: &std::path::Path) -> Adaptation {
    if k == 2 {
        let p = corpus::profile();
        let f = p.write(&crate::core::Tr { dir: dir.into(), ..Default::default() }, "p");
        return load(&f).expect("corpus profile");
    }
    let mut a = sample(&[0, 1]);
    if k == 1 {
        a.rebuild_sector_index();
    }
    a
}

/// one schedule: threads 0 and 1 held at the given places; what every thread saw
struct Run {
    held: [bool; 2],
    out: Vec<Vec<String>>,
    waited: bool,
}
fn schedule(s: &Scenario, a: &Adaptation, at: [Place; 2]) -> Result<Run, String> {
    SHARED.store(std::ptr::from_ref(a) as usize, SeqCst);
    let long = Duration::from_secs(5);
    let n = s.ops.len();
    let mut r = Run { held: [false; 2], out: vec![], waited: false };
    for i in 0..n {
        *WORK[i].lock().unwrap() = (s.ops[i].clone(), vec![]);
    }
    start(0, at[0]);
    r.held[0] = wait(0, long) == Stop::Held;
    disarm();
    for i in 1..n {
        start(i, if i == 1 { at[1] } else { Place::Nowhere });
        match wait(i, long) {
            Stop::Waits => r.waited = true,
            Stop::Done => {}
            Stop::Held => r.held[1] = true,
        }
        disarm();
    }
    release(0);
    if r.held[1] {
        // the second stays held until the first has ended or waits for it
        if wait(0, long) == Stop::Waits {
            r.waited = true;
        }
    }
    release(1);
    for i in 0..n {
        r.out.push(finish(i)?);
    }
    Ok(r)
}

/// the places of thread `who` when it runs alone or, the second, when the first
/// is held before its first instruction
fn places(s: &Scenario, b: &Adaptation, who: usize) -> Vec<Place> {
    let mut buf = vec![0usize; TRACE_MAX];
    let mut alone = s.clone();
    alone.ops.swap(0, who);
    alone.ops.truncate(1);
    for _ in 0..2 {
        buf.fill(0);
        BP_OWNER.store(0, SeqCst);
        TRACE.store(buf.as_mut_ptr() as usize, SeqCst);
        let _ = schedule(&alone, &Box::new(b.clone()), [Place::Step(u64::MAX - 1), Place::Nowhere]);
        TRACE.store(0, SeqCst);
    }
    let n = buf.iter().position(|a| *a == 0).unwrap_or(TRACE_MAX);
    let mut seen = std::collections::HashMap::new();
    let mut out = vec![];
    for (k, &a) in buf[..n].iter().enumerate() {
        let c = seen.entry(a).or_insert(0u64);
        out.push(if patchable(a) { Place::At(a, *c) } else { Place::Step(k as u64) });
        *c += 1;
    }
    out
}

/// `mc sched <tier> <scenario> <residue> <parts> <dir> <seconds>`: all schedules of a
/// scenario whose place is of one residue class; prints what was covered
pub fn sched(a: &[String]) {
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let s = scenarios(a[0] == "thorough").swap_remove(n(1) as usize);
    let (residue, parts) = (n(2), n(3));
    crate::core::install_hook();
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::c_void) as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
    for i in 0..s.ops.len() {
        std::thread::spawn(move || worker(i));
    }
    for c in &CTL[..s.ops.len()] {
        while c.tid.load(SeqCst) == 0 {
            std::thread::yield_now();
        }
    }
    let b = base(s.base, std::path::Path::new(&a[4]));
    // what every operation returns alone
    let alone = |o: &Op| o.run(&b.clone()).text();
    let want: Vec<Vec<String>> = s.ops.iter().map(|v| v.iter().map(alone).collect()).collect();
    // asked afterwards: the same again
    let ask: Vec<Op> = s.ops.iter().flatten().copied().collect();
    let all: Vec<(Op, String)> = ask.iter().map(|o| (*o, alone(o))).collect();
    // once without holding, so that the threads have their own memory
    for _ in 0..2 {
        let _ = schedule(&s, &b.clone(), [Place::Nowhere; 2]);
    }
    let first = places(&s, &b, 0);
    let second: Vec<Place> = if s.second == 0 { vec![Place::Nowhere] } else { places(&s, &b, 1).into_iter().step_by(s.second).collect() };
    let t0 = Instant::now();
    let (mut runs, mut waits, mut missed, mut truncated) = (0u64, 0u64, 0, 0);
    'places: for k in (residue as usize..first.len()).step_by(parts as usize) {
        for &k2 in &second {
            let mut at = first[k];
            loop {
                let a = Box::new(b.clone());
                let r = schedule(&s, &a, [at, k2]);
                let bad = match &r {
                    Err(e) => Some(e.clone()),
                    Ok(r) => {
                        let after: Vec<(Op, String, String)> = all.iter().map(|(o, w)| (*o, o.run(&a).text(), w.clone())).filter(|(_, g, w)| g != w).collect();
                        if r.out != want {
                            Some(format!("answers {:?}, alone {want:?}", r.out))
                        } else if !after.is_empty() {
                            Some(format!("afterwards {after:?} (operation, answer, answer alone)"))
                        } else {
                            None
                        }
                    }
                };
                if let Some(m) = bad {
                    println!("BAD first thread held before instruction {k} of {}, second {k2:?}: {m}", first.len());
                    std::process::exit(1);
                }
                let r = r.unwrap();
                waits += u64::from(r.waited);
                runs += 1;
                if r.held[0] {
                    break;
                }
                // it went another way; find the place by counting
                if matches!(at, Place::Step(_)) {
                    missed += 1;
                    break;
                }
                at = Place::Step(k as u64);
            }
            if t0.elapsed() > Duration::from_secs(n(5)) {
                truncated = 1;
                break 'places;
            }
        }
    }
    println!("{runs} {waits} {} {} {missed} {truncated}", first.len(), second.len());
    std::process::exit(0);
}

fn run(sh: &mut Sh) {
    let parts = 16u64;
    let seconds = sh.pick("40", "900");
    let g = sh.g.clone();
    for (i, s) in scenarios(sh.thorough()).into_iter().enumerate() {
        for r in 0..parts {
            let tier = sh.pick("quick", "thorough");
            sh.case(
                || format!("{s:?}: first thread held before instructions {r} modulo {parts}"),
                |t| {
                    let mut n: Vec<u64> = vec![];
                    // only a death that repeats is the library's
                    for attempt in 0..3 {
                        let out = std::process::Command::new(std::env::current_exe().unwrap())
                            .args(["sched", tier, &i.to_string(), &r.to_string(), &parts.to_string()])
                            .arg(&t.dir)
                            .arg(seconds)
                            .output()
                            .map_err(|e| e.to_string())?;
                        let text = String::from_utf8_lossy(&out.stdout).trim().to_string();
                        n = text.split(' ').filter_map(|x| x.parse().ok()).collect();
                        if n.len() == 6 {
                            break;
                        }
                        if attempt == 2 || !text.is_empty() {
                            return Err(format!("{text} {} {:?}", String::from_utf8_lossy(&out.stderr), out.status.code()));
                        }
                    }
                    if n[5] != 0 {
                        g.truncated.store(true, SeqCst);
                    }
                    t.step(n[0] as usize);
                    t.extra_states += n[0];
                    t.comparisons += n[0];
                    t.doc("covered", format!("{} schedules, {} with waiting, of {} places of the first thread and {} of the second; {} places not reached", n[0], n[1], n[2], n[3], n[4]));
                    Ok(())
                },
            );
        }
    }
}
