//! Running calls under guard (panic, hang, abort), in parallel jobs, keeping
//! the suspicious ones and a sample of the rest.
use crate::accept::Cx;
use crate::call::*;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

pub const NSLOTS: usize = 16;
const SLOT: usize = 8;
pub static SHM: AtomicPtr<u64> = AtomicPtr::new(std::ptr::null_mut());
static START: AtomicU64 = AtomicU64::new(0);

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
/// the calls in progress, in a file that survives the process
pub fn map_slots(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
    f.set_len((NSLOTS * SLOT * 8) as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), NSLOTS * SLOT * 8, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    SHM.store(p as *mut u64, SeqCst);
}
fn slot(i: usize, j: usize) -> &'static AtomicU64 {
    unsafe { &*(SHM.load(Relaxed).add(i * SLOT + j) as *const AtomicU64) }
}
fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}
pub fn active() -> Vec<(Call, u64)> {
    let mut v = vec![];
    let t = now_ms();
    for i in 0..NSLOTS {
        let st = slot(i, 0).load(SeqCst);
        if st != 0 {
            let g = |j: usize| slot(i, j).load(SeqCst);
            v.push((
                Call { op: OPS[(g(1) as usize).min(OPS.len() - 1)], w: g(2), z: g(3), a: g(4) as i64, b: g(5) as i64, c: g(6) as i64 },
                t.saturating_sub(st),
            ));
        }
    }
    v
}
pub fn clear_slots() {
    for i in 0..NSLOTS * SLOT {
        unsafe { (*(SHM.load(Relaxed).add(i) as *const AtomicU64)).store(0, SeqCst) }
    }
}
/// a coarse clock, kept by the watchdog, to keep timestamps cheap
static CLOCK: AtomicU64 = AtomicU64::new(0);
pub fn watchdog(limit_ms: u64) {
    CLOCK.store(now_ms(), SeqCst);
    START.store(now_ms(), SeqCst);
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        CLOCK.store(now_ms(), SeqCst);
        if active().iter().any(|x| x.1 > limit_ms) {
            std::process::exit(86);
        }
    });
}

thread_local! { pub static ME: std::cell::Cell<usize> = std::cell::Cell::new(0); }

pub struct Busy;
impl Busy {
    pub fn new(k: &Call) -> Busy {
        let i = ME.with(|m| m.get());
        slot(i, 1).store(k.op as u64, Relaxed);
        slot(i, 2).store(k.w, Relaxed);
        slot(i, 3).store(k.z, Relaxed);
        slot(i, 4).store(k.a as u64, Relaxed);
        slot(i, 5).store(k.b as u64, Relaxed);
        slot(i, 6).store(k.c as u64, Relaxed);
        slot(i, 0).store(CLOCK.load(Relaxed).max(1), Release);
        Busy
    }
}
impl Drop for Busy {
    fn drop(&mut self) {
        slot(ME.with(|m| m.get()), 0).store(0, Release);
    }
}

pub fn guard(k: &Call, f: impl FnOnce() -> Out) -> Out {
    let _b = Busy::new(k);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(o) => o,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                String::new()
            };
            Out::Panic(m)
        }
    }
}
pub fn call(k: &Call) -> Out {
    guard(k, || exec(k))
}

/// some calls come after one that fails
pub fn tried(k: &Call) -> Out {
    let h = k.hash();
    if h % 16 == 3 {
        crate::clients::disturb(k, h);
    }
    call(k)
}

/// what a job leaves behind
#[derive(Default)]
pub struct Rec {
    pub sus: Vec<(Call, Out)>,
    pub nsus: u64,
    pub sample: Vec<(Call, Out)>,
    /// stateful recordings: each is a run of events to be read in order
    pub runs: Vec<Vec<(Call, Out)>>,
    pub counts: BTreeMap<&'static str, u64>,
    pub kinds: BTreeMap<String, u64>,
    pub seen: HashSet<u64>,
    pub exhaustive_calls: u64,
    tick: BTreeMap<Op, u64>,
    /// sample one call in this many (per op)
    pub every: u64,
    pub phase: u64,
    pub exhaustive: bool,
    pub bad_runs: bool,
    pub walks: u64,
}
pub const SUS_CAP: usize = 40;
/// distinct generated calls are counted up to this many per job
pub const SEEN_CAP: usize = 100_000;
impl Rec {
    pub fn note(&mut self, k: &Call, o: Out, good: bool) {
        let name = op_name(k.op);
        *self.counts.entry(name).or_insert(0) += 1;
        if self.exhaustive {
            self.exhaustive_calls += 1;
        } else if self.seen.len() < SEEN_CAP {
            self.seen.insert(k.hash());
        }
        if !good {
            self.nsus += 1;
            if self.sus.len() < SUS_CAP {
                self.sus.push((*k, o));
            }
            return;
        }
        let t = self.tick.entry(k.op).or_insert(0);
        *t += 1;
        if self.every > 0 && (*t + self.phase) % self.every == 1 % self.every {
            self.sample.push((*k, o));
        }
    }
    pub fn kind(&mut self, s: &str) {
        *self.kinds.entry(s.to_string()).or_insert(0) += 1;
    }
    /// call, screen, record
    pub fn go(&mut self, cx: &Cx, k: Call) -> Out {
        let o = tried(&k);
        let good = cx.accept(&k, &o);
        self.note(&k, o.clone(), good);
        o
    }
}
pub fn op_name(op: Op) -> &'static str {
    match op {
        Op::Valid => "valid",
        Op::Get => "get",
        Op::Put => "put",
        Op::Fresh => "fresh",
        Op::Pent => "pent",
        Op::Res0 => "res0",
        Op::Res0Count => "res0count",
        Op::Encode => "encode",
        Op::Locate => "locate",
        Op::Centre => "centre",
        Op::CentreOf => "centreof",
        Op::Back => "back",
        Op::Children => "children",
        Op::Succ => "succ",
        Op::Size => "size",
        Op::ChildPos => "childpos",
        Op::Neighbor => "neighbor",
        Op::Heading => "heading",
        Op::Around => "around",
        Op::DirTo => "dirto",
        Op::Disk => "disk",
        Op::FastDisk => "fastdisk",
        Op::FastRing => "fastring",
        Op::WideRing => "widering",
        Op::Bound => "bound",
        Op::Edge => "edge",
        Op::EdgeValid => "edgevalid",
        Op::EdgeOrigin => "edgeorigin",
        Op::EdgeDest => "edgedest",
        Op::EdgeCells => "edgecells",
        Op::Edges => "edges",
        Op::Any => "any",
        Op::Lng => "lng",
        Op::Degs => "degs",
        Op::Almost => "almost",
        Op::AlmostStd => "almoststd",
        Op::AlmostReal => "almostreal",
        Op::Iter => "iter",
        Op::Next => "next",
        Op::Walk => "walk",
        Op::Step => "step",
        Op::Nth => "nth",
        Op::FarRing => "farring",
        Op::FarDisk => "fardisk",
        Op::Len => "len",
        Op::At => "at",
        Op::Go => "go",
        Op::Address => "address",
        Op::NameOf => "nameof",
        Op::BaseAt => "baseat",
        Op::BaseNb => "basenb",
        Op::BaseIs => "baseis",
        Op::CwOff => "cwoff",
        Op::Turn => "turn",
        Op::Zero => "zero",
        Op::Lead => "lead",
        Op::HasKids => "haskids",
        Op::Count => "count",
        Op::PosValid => "posvalid",
        Op::Class3 => "class3",
        Op::Travel => "travel",
        Op::Azimuth => "azimuth",
        Op::PosAngle => "posangle",
        Op::Vec => "vec",
        Op::SqDist => "sqdist",
        Op::Mag => "mag",
        Op::Lat => "lat",
        Op::Unfold => "unfold",
        Op::Jump => "jump",
        Op::Left => "left",
        Op::Last => "last",
        Op::Hint => "hint",
        Op::Least => "least",
        Op::Rest => "rest",
    }
}

pub type Job<'a> = Box<dyn Fn(&mut Rec) + Send + Sync + 'a>;
pub fn run_jobs(jobs: Vec<Job>) -> Rec {
    let next = AtomicUsize::new(0);
    let done: Mutex<BTreeMap<usize, Rec>> = Mutex::new(BTreeMap::new());
    let n = std::env::var("H3_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize).min(NSLOTS);
    std::thread::scope(|s| {
        for t in 0..n {
            let (jobs, next, done) = (&jobs, &next, &done);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    ME.with(|m| m.set(t));
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= jobs.len() {
                            break;
                        }
                        let mut r = Rec { every: 1, ..Default::default() };
                        jobs[i](&mut r);
                        done.lock().unwrap().insert(i, r);
                    }
                })
                .unwrap();
        }
    });
    let mut all = Rec::default();
    for (_, r) in done.into_inner().unwrap() {
        all.nsus += r.nsus;
        all.bad_runs |= r.bad_runs;
        for x in r.sus {
            if all.sus.len() < 400 {
                all.sus.push(x);
            }
        }
        all.sample.extend(r.sample);
        all.runs.extend(r.runs);
        for (k, v) in r.counts {
            *all.counts.entry(k).or_insert(0) += v;
        }
        for (k, v) in r.kinds {
            *all.kinds.entry(k).or_insert(0) += v;
        }
        all.exhaustive_calls += r.exhaustive_calls;
        all.seen.extend(r.seen);
    }
    all
}

// ------------------------------------------------------------------ random --
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ stream.wrapping_mul(0xD1B5_4A32_D192_ED03));
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as u64) as i64
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
}
