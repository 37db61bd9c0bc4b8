//! Clients: histories of calls among related arguments, with iterators held in
//! between, alone and by several threads at once; and the histories that the
//! specification makes up, followed.
use crate::accept::*;
use crate::call::*;
use crate::json::{parse, J};
use crate::mirror::*;
use crate::run::*;
use h3_rs::iterators::IterCellsChildren;
use std::sync::Mutex;

pub const SLOTS: usize = 4;

/// an iterator and what it has still to yield
pub struct Held {
    it: Option<IterCellsChildren>,
    w: u64,
    res: i64,
    par: Cell,
    n: usize,
    pos: i128,
    total: i128,
    /// how it came here
    past: Vec<(Call, Out)>,
}
/// for handing iterators from thread to thread
struct Carried(Held);
unsafe impl Send for Carried {}

impl Held {
    fn new(cx: &Cx, slot: usize, w: u64, res: i64) -> (Held, Out) {
        let par = cx.spec.cell_of(w).unwrap();
        let ok = (par.res as i64..16).contains(&res);
        let n = if ok { (res - par.res as i64) as usize } else { 0 };
        let total = if ok { count(cx.spec.is_pent(&par), n as u32) } else { 0 };
        let k = Call::new(Op::Iter, w, slot as u64, res, 0, 0);
        let mut it = None;
        let o = guard(&k, || {
            it = Some(IterCellsChildren::from_parent(w, res as i32));
            Out::Ok(Val::Unit)
        });
        let h = Held { it, w, res, par, n, pos: 0, total, past: vec![(k, o.clone())] };
        (h, o)
    }
    fn at(&self, cx: &Cx, pos: i128) -> Out {
        if pos < self.total {
            Out::Some(cx.child_at(&self.par, self.n, pos).word())
        } else {
            Out::End
        }
    }
    fn small(&self) -> bool {
        self.total - self.pos <= 20_000
    }
    fn few(&self) -> bool {
        self.total - self.pos <= 400
    }
    /// asks; gives the call, its outcome, and whether that is right
    fn ask(&mut self, cx: &Cx, slot: usize, op: Op, n: i64) -> (Call, Out, bool) {
        let k = Call::new(op, self.w, slot as u64, self.res, if op == Op::Next { self.pos as i64 } else { n }, 0);
        if self.it.is_none() {
            // used up
            self.it = Some(IterCellsChildren::from_parent(self.w, -1));
        }
        let o;
        let want;
        let end = |x: Option<u64>| match x {
            Some(x) => Out::Some(x),
            None => Out::End,
        };
        // by one or another of the methods that come to the same
        let how = (self.past.len() as u64 ^ self.w ^ self.w >> 45).wrapping_mul(0x9e37_79b9_7f4a_7c15) as usize >> 40;
        match op {
            Op::Next => {
                let it = self.it.as_mut().unwrap();
                o = guard(&k, || end(if how % 8 == 3 { it.by_ref().take(1).last() } else { it.next() }));
                want = self.at(cx, self.pos);
                self.pos = (self.pos + 1).min(self.total);
            }
            Op::Jump => {
                want = self.at(cx, self.pos + n as i128);
                let it = self.it.as_mut().unwrap();
                let t = match want {
                    Out::Some(t) => t,
                    _ => 0,
                };
                let met = |b: bool| if b { Some(t) } else { None };
                o = guard(&k, || {
                    end(match how % 14 {
                        1 => it.find(|x| *x == t),
                        2 => it.position(|x| x == t).map(|m| if m == n as usize { t } else { !(m as u64) }),
                        3 => met(it.any(|x| x == t)),
                        4 => met(!it.all(|x| x != t)),
                        5 => it.find_map(|x| met(x == t)),
                        6 => it.by_ref().skip(n as usize).next(),
                        7 => {
                            it.by_ref().take(n as usize).for_each(|_| ());
                            it.next()
                        }
                        8 => it.try_for_each(|x| if x == t { Err(x) } else { Ok(()) }).err(),
                        9 => it.by_ref().skip_while(|x| *x != t).next(),
                        _ => it.nth(n as usize),
                    })
                });
                self.pos = (self.pos + n as i128 + 1).min(self.total);
            }
            Op::Left => {
                let it = self.it.take().unwrap();
                o = guard(&k, || {
                    Out::Ok(Val::Big(match how % 8 {
                        1 => it.fold(0, |n, _| n + 1),
                        2 => it.map(|_| 1).sum::<i128>(),
                        3 => it.collect::<Vec<u64>>().len() as i128,
                        4 => {
                            let mut n = 0;
                            it.for_each(|_| n += 1);
                            n
                        }
                        5 => it.filter(|_| true).count() as i128,
                        _ => it.count() as i128,
                    }))
                });
                want = Out::Ok(Val::Big(self.total - self.pos));
                self.pos = self.total;
            }
            Op::Last => {
                let it = self.it.take().unwrap();
                o = guard(&k, || {
                    end(match how % 8 {
                        1 => it.max(),
                        2 => it.fold(None, |_, x| Some(x)),
                        3 => it.reduce(|_, x| x),
                        4 => it.max_by_key(|x| *x),
                        5 => it.min_by_key(|x| !*x),
                        _ => it.last(),
                    })
                });
                want = if self.pos < self.total { self.at(cx, self.total - 1) } else { Out::End };
                self.pos = self.total;
            }
            Op::Least => {
                let it = self.it.take().unwrap();
                o = guard(&k, || {
                    end(match how % 4 {
                        1 => it.min_by_key(|x| *x),
                        2 => it.reduce(|x, _| x),
                        _ => it.min(),
                    })
                });
                want = self.at(cx, self.pos);
                self.pos = self.total;
            }
            Op::Rest => {
                let it = self.it.take().unwrap();
                o = guard(&k, || Out::Ok(Val::Words(all_of(it, how))));
                want = Out::Ok(Val::Words((self.pos..self.total).map(|p| cx.child_at(&self.par, self.n, p).word()).collect()));
                self.pos = self.total;
            }
            _ => {
                let it = self.it.as_ref().unwrap();
                o = guard(&k, || {
                    let (lo, hi) = it.size_hint();
                    Out::Ok(Val::Ints(vec![lo.min(1 << 60) as i64, hi.map_or(-1, |x| x.min(1 << 60) as i64)]))
                });
                let left = self.total - self.pos;
                let good = match &o {
                    Out::Ok(Val::Ints(v)) => v[0] as i128 <= left && (v[1] < 0 || v[1] as i128 >= left),
                    _ => false,
                };
                self.past.push((k, o.clone()));
                return (k, o, good);
            }
        }
        let good = o == want;
        self.past.push((k, o.clone()));
        (k, o, good)
    }
}

/// words and points that differ little from each other
struct Pool {
    cells: Vec<u64>,
    words: Vec<u64>,
    points: Vec<(f64, f64)>,
}
impl Pool {
    fn new(cx: &Cx, g: &mut Rng) -> Pool {
        let r = if g.chance(1, 3) { g.below(4) as usize } else { g.below(16) as usize };
        let (c, _) = cx.cell(g, r);
        let fix = |mut c: Cell| {
            if !cx.spec.is_cell(&c) {
                for i in 0..c.res as usize {
                    if c.ds[i] != 0 {
                        c.ds[i] = 2;
                        break;
                    }
                }
            }
            c
        };
        let mut v = vec![c];
        for _ in 0..3 {
            // one digit otherwise
            if r > 0 {
                let mut e = c;
                let i = if g.chance(1, 2) { r - 1 } else { g.below(r as u64) as usize };
                e.ds[i] = g.below(7) as u8;
                v.push(fix(e));
            }
        }
        for _ in 0..3 {
            // another base cell
            let mut e = c;
            e.bc = match g.below(3) {
                0 => *g.pick(&cx.pents()),
                1 => (c.bc ^ (1 << g.below(7))) % 122,
                _ => g.below(122) as u8,
            };
            v.push(fix(e));
        }
        let mut z = Cell::base(*g.pick(&cx.pents()));
        let mut z2 = Cell::base(c.bc);
        for _ in 0..r {
            z = z.child(0);
            z2 = z2.child(0);
        }
        v.push(z);
        v.push(z2);
        for _ in 0..2 {
            v.extend(cx.spec.neighbors(g.pick(&[c, z])).into_iter().skip(g.below(3) as usize).take(2));
        }
        if r > 0 {
            v.push(c.parent());
        }
        if r < 15 {
            v.push(c.child(0));
            for _ in 0..2 {
                v.push(fix(c.child(g.below(7) as u8)));
            }
        }
        // some, not all
        while v.len() > 6 && g.chance(3, 4) {
            let i = g.below(v.len() as u64) as usize;
            v.swap_remove(i);
        }
        let cells: Vec<u64> = v.iter().map(|c| c.word()).collect();
        let mut words = cells.clone();
        for _ in 0..3 {
            let x = *g.pick(&v);
            let d = 1 + g.below(6) as u8;
            words.push(cx.edge_word(&x, d));
        }
        for _ in 0..3 {
            words.push(*g.pick(&cells) ^ (1 << g.below(64)));
        }
        words.push(*g.pick(&[0, !0, 1, 1 << 63]));
        let (lat, lng, _) = cx.point(g, r);
        let (lat2, lng2) = ((2.0 * g.f() - 1.0).asin(), (2.0 * g.f() - 1.0) * std::f64::consts::PI);
        let e = 10f64.powf(-1.0 - 9.0 * g.f());
        let mut points = vec![(lat, lng), (lat, lng2), (lat2, lng), (-lat, lng), (lat, -lng), (lat + e, lng), (lat, lng + e), (lat2, lng2)];
        points.truncate(3 + g.below(6) as usize);
        Pool { cells, words, points }
    }
    fn call(&self, cx: &Cx, g: &mut Rng) -> Call {
        let w = *g.pick(&self.cells);
        let z = *g.pick(&self.cells);
        let any = *g.pick(&self.words);
        let c = cx.spec.cell_of(w).unwrap();
        let r = c.res as i64;
        let res = match g.below(6) {
            0 => r - 1,
            1 => 15,
            2 => r,
            3 => g.range(-1, 16),
            _ => (r + 1 + g.below(3) as i64).min(15),
        };
        let few = if res > r + 3 && res < 16 { r + 1 } else { res };
        let (lat, lng) = *g.pick(&self.points);
        match g.below(30) {
            0 => Call::w(Op::Valid, any),
            1 => Call::new(Op::Get, any, 0, g.below(7) as i64, 1 + g.below(15) as i64, 0),
            2 => Call::new(Op::Put, any, 0, 5, 1 + g.below(15) as i64, g.below(8) as i64),
            3 => Call::new(Op::Fresh, any, 0, g.below(16) as i64, g.below(122) as i64, g.below(7) as i64),
            4 => Call::w(Op::Pent, w),
            5 | 6 => Call::w(Op::Centre, w),
            7 | 8 => Call::wa(Op::Back, w, g.range((r - 2).max(0), r)),
            9..=11 => Call::new(Op::Locate, lat.to_bits(), lng.to_bits(), if g.chance(1, 3) { g.below(16) as i64 } else { r }, 0, 0),
            12 => Call::new(Op::Encode, lat.to_bits(), lng.to_bits(), g.range(-1, 16), 0, 0),
            13 => Call::wa(Op::Children, w, few),
            14 | 15 => Call::wa(Op::Size, w, res),
            16 | 17 => {
                let top = 1 << g.below(50);
                Call::new(Op::ChildPos, w, 0, res, g.below(top) as i64 - 1, 0)
            },
            18 | 19 => {
                let d = 1 + g.below(6) as i64;
                Call::new(Op::Neighbor, w, 0, d, g.below(6) as i64, 0)
            }
            20 => Call::wa(Op::Around, w, cx.spec.is_pent(&c) as i64),
            21 => Call::wz(Op::DirTo, w, z),
            22 => Call::wa(Op::Disk, w, g.below(4) as i64),
            23 => Call::wa(Op::FastDisk, w, g.below(4) as i64),
            24 => Call::wa(Op::FastRing, w, g.below(4) as i64),
            25 => Call::wz(Op::Edge, w, z),
            26 => Call::w(*g.pick(&[Op::EdgeValid, Op::EdgeOrigin, Op::EdgeDest, Op::EdgeCells]), any),
            27 => Call::w(Op::Edges, w),
            28 => Call::new(Op::Any, any, w, g.below(ANY.len() as u64) as i64, g.below(4) as i64, g.below(1000) as i64),
            _ => Call::w(Op::Lng, (lng * 3.0).to_bits()),
        }
    }
}

/// a word much like w, that names no cell
fn spoilt(g: &mut Rng, w: u64) -> u64 {
    let mut f = fields(w);
    let r = f.res as usize;
    match g.below(8) {
        0..=2 if r > 0 => {
            let i = if g.chance(1, 2) { r - 1 } else { g.below(r as u64) as usize };
            f.ds[i] = 7;
        }
        3 if r < 15 => f.ds[r + g.below(15 - r as u64) as usize] = g.below(7) as u8,
        4 => f.bc = 122 + g.below(6) as u8,
        5 => f.mode = g.below(16) as u8,
        6 => f.rsv = 1 + g.below(7) as u8,
        7 => f.hb = 1,
        _ => return w ^ (1 << g.below(64)),
    }
    unfields(&f)
}
/// a call like this one that fails or makes no sense, and is quick
pub fn disturb(k: &Call, h: u64) {
    let quick = match k.op {
        Op::Disk | Op::FastDisk | Op::FastRing => k.a <= 4,
        Op::Children => k.a <= fields(k.w).res as i64 + 3,
        _ => true,
    };
    if quick {
        let mut g = Rng::new(h, 99);
        let x = match k.op {
            Op::Encode | Op::Locate => Some(Call::new(Op::Encode, if g.chance(1, 2) { f64::NAN.to_bits() } else { k.w }, f64::INFINITY.to_bits(), k.a, 0, 0)),
            _ => loose(&mut g, k),
        };
        if let Some(x) = x {
            crate::run::call(&x);
        }
    }
}
/// the same call, with any word
fn loose(g: &mut Rng, k: &Call) -> Option<Call> {
    let (name, b, c) = match k.op {
        Op::Neighbor => ("neighbor", k.a, k.b),
        Op::Centre => ("centre", 0, 0),
        Op::Back => ("centre", 0, 0),
        Op::Pent => ("pent", 0, 0),
        Op::Valid => ("valid", 0, 0),
        Op::Size => ("size", k.a, 0),
        Op::ChildPos => ("childpos", k.a, k.b),
        Op::Children => ("children", k.a, 0),
        Op::Disk => ("disk", k.a, 0),
        Op::FastDisk => ("fastdisk", k.a, 0),
        Op::FastRing => ("fastring", k.a, 0),
        Op::DirTo => ("dirto", 0, 0),
        Op::Edge => ("edge", 0, 0),
        Op::Edges => ("edges", 0, 0),
        Op::EdgeValid => ("edgevalid", 0, 0),
        Op::EdgeOrigin => ("edgeorigin", 0, 0),
        Op::EdgeDest => ("edgedest", 0, 0),
        Op::EdgeCells => ("edgecells", 0, 0),
        _ => return None,
    };
    let a = ANY.iter().position(|x| *x == name).unwrap() as i64;
    let (w, z) = if k.z != 0 && g.chance(1, 2) { (k.w, spoilt(g, k.z)) } else { (spoilt(g, k.w), k.z) };
    Some(Call::new(Op::Any, w, z, a, b, c))
}
/// the same call of another cell
fn of_another(cx: &Cx, g: &mut Rng, k: &Call, w: u64) -> Option<Call> {
    let c = cx.spec.cell_of(w).unwrap();
    match k.op {
        Op::Around => Some(Call::wa(Op::Around, w, cx.spec.is_pent(&c) as i64)),
        Op::Back if k.a > c.res as i64 => None,
        Op::Children if k.a > c.res as i64 + 4 && k.a < 16 => None,
        Op::DirTo | Op::Edge if g.chance(1, 2) => Some(Call { z: w, ..*k }),
        Op::Valid | Op::Get | Op::Put | Op::Fresh | Op::Pent | Op::Centre | Op::Back | Op::Children | Op::Size | Op::ChildPos | Op::Neighbor
        | Op::DirTo | Op::Disk | Op::FastDisk | Op::FastRing | Op::Edge | Op::Edges => Some(Call { w, ..*k }),
        _ => None,
    }
}

/// iterators that lie about for others to take up
static LUGGAGE: Mutex<Vec<Carried>> = Mutex::new(vec![]);

/// waits for the others, but not long
pub struct Gate {
    n: usize,
    at: std::sync::atomic::AtomicUsize,
}
impl Gate {
    pub fn new(n: usize) -> Gate {
        Gate { n, at: Default::default() }
    }
    fn pass(&self) {
        use std::sync::atomic::Ordering::SeqCst;
        let mine = self.at.fetch_add(1, SeqCst) / self.n;
        let t = std::time::Instant::now();
        while self.at.load(SeqCst) < (mine + 1) * self.n && t.elapsed().as_micros() < 500 {
            std::hint::spin_loop();
        }
    }
}

/// a history: `len` calls.  Kept for TLC if wrong, or if asked to
fn history(rec: &mut Rec, cx: &Cx, g: &mut Rng, pool: &Pool, len: usize, keep: bool) {
    let mut held: Vec<Option<Held>> = (0..SLOTS).map(|_| None).collect();
    let mut run: Vec<(Call, Out)> = vec![];
    let mut good = true;
    let mut soon: Vec<Call> = vec![];
    for _ in 0..len {
        if !good {
            break;
        }
        let s = g.below(SLOTS as u64) as usize;
        match g.below(10) {
            0 => {
                let w = *g.pick(&pool.cells);
                let r = fields(w).res as i64;
                let res = if g.chance(1, 8) { g.range(-1, 16) } else { (r + g.below(4) as i64).min(15) };
                let (h, o) = Held::new(cx, s, w, res);
                good = o == Out::Ok(Val::Unit);
                run.push(h.past[0].clone());
                *rec.counts.entry("iter").or_insert(0) += 1;
                held[s] = if good { Some(h) } else { None };
            }
            1 if g.chance(1, 3) => {
                // leave it for someone else, or take another's up
                let Ok(mut l) = LUGGAGE.try_lock() else { continue };
                if g.chance(1, 2) || l.is_empty() {
                    if let Some(h) = held[s].take() {
                        if h.past.len() < 40 && l.len() < 40 {
                            l.push(Carried(h));
                        }
                    }
                } else {
                    let i = g.below(l.len() as u64) as usize;
                    let Carried(mut h) = l.swap_remove(i);
                    drop(l);
                    for x in h.past.iter_mut() {
                        x.0.z = s as u64;
                    }
                    run.extend(h.past.iter().cloned());
                    rec.kind("iterator handed over");
                    held[s] = Some(h);
                }
            }
            1..=3 => {
                if let Some(h) = &mut held[s] {
                    let op = match g.below(16) {
                        0 | 1 => Op::Jump,
                        2 if h.small() => Op::Left,
                        3 if h.small() => Op::Last,
                        4 => Op::Hint,
                        5 if h.small() && g.chance(1, 2) => Op::Least,
                        5 if h.few() => Op::Rest,
                        _ => Op::Next,
                    };
                    let top = 1 << g.below(12);
                    let n = if op == Op::Jump { g.below(top) as i64 } else { 0 };
                    let (k, o, ok) = h.ask(cx, s, op, n);
                    good = ok;
                    *rec.counts.entry(op_name(op)).or_insert(0) += 1;
                    if o == Out::End && g.chance(1, 2) {
                        held[s] = None;
                    }
                    run.push((k, o));
                }
            }
            _ => {
                let k = match soon.pop() {
                    Some(k) => k,
                    None => {
                        let k = pool.call(cx, g);
                        match g.below(8) {
                            0 | 1 => match loose(g, &k) {
                                Some(l) => {
                                    soon.push(k);
                                    l
                                }
                                None => k,
                            },
                            2 | 3 => {
                                let w = *g.pick(&pool.cells);
                                soon.extend(of_another(cx, g, &k, w));
                                k
                            }
                            4 => {
                                soon.push(k);
                                k
                            }
                            _ => k,
                        }
                    }
                };
                if k.op == Op::Locate && cx.geo.query(f64::from_bits(k.w), f64::from_bits(k.z), k.a as usize).tol > 2000 {
                    continue;
                }
                if matches!(k.op, Op::EdgeOrigin | Op::EdgeDest | Op::EdgeCells) && !cx.is_edge_word(k.w) {
                    continue;
                }
                if k.op == Op::Any && ANY[k.a as usize] == "iter" {
                    continue;
                }
                let o = call(&k);
                good = cx.accept(&k, &o);
                *rec.counts.entry(op_name(k.op)).or_insert(0) += 1;
                if rec.seen.len() < SEEN_CAP {
                    rec.seen.insert(k.hash());
                }
                run.push((k, o));
            }
        }
    }
    rec.kind("history");
    if !good {
        rec.nsus += 1;
        rec.bad_runs = true;
        if rec.runs.len() < 12 {
            rec.runs.push(run);
        }
    } else if keep {
        rec.runs.push(run);
    }
}

pub fn alone(rec: &mut Rec, cx: &Cx, g: &mut Rng, keep: bool) {
    let pool = Pool::new(cx, g);
    let len = 20 + g.below(140) as usize;
    history(rec, cx, g, &pool, len, keep);
}
/// the same pools as the other threads, at about the same time
pub fn together(rec: &mut Rec, cx: &Cx, seed: u64, me: u64, gate: &Gate, pools: usize, keep: usize) {
    let mut pg = Rng::new(seed, 424_242);
    let mut g = Rng::new(seed, 500_000 + me);
    for i in 0..pools {
        let pool = Pool::new(cx, &mut pg);
        gate.pass();
        rec.kind("pool shared by threads");
        history(rec, cx, &mut g, &pool, 60, keep > 0 && i % (pools / keep).max(1) == me as usize);
    }
}

// ------------------------------------------- histories of the specification --
fn word_of(j: &J) -> u64 {
    let v: Vec<u8> = j.a().iter().map(|x| x.n() as u8).collect();
    let mut ds = [0u8; 15];
    ds.copy_from_slice(&v[5..20]);
    unfields(&Fields { hb: v[0], mode: v[1], rsv: v[2], res: v[3], bc: v[4], ds })
}
fn num_of(j: &J) -> i128 {
    j.a().iter().fold(0, |n, d| n * 7 + d.n() as i128)
}
fn text(j: &J) -> &str {
    match j {
        J::Str(s) => s,
        _ => panic!("string expected"),
    }
}
fn sorted(o: &Out) -> Out {
    match o {
        Out::Ok(Val::Words(v)) => {
            let mut v = v.clone();
            v.sort();
            Out::Ok(Val::Words(v))
        }
        Out::Ok(Val::Pairs(v)) => {
            let mut v = v.clone();
            v.sort();
            Out::Ok(Val::Pairs(v))
        }
        o => o.clone(),
    }
}
/// follows one; every answer has to be the one written there
pub fn follow(rec: &mut Rec, cx: &Cx, path: &std::path::Path, keep: bool) {
    let j = parse(&std::fs::read_to_string(path).unwrap());
    let mut held: Vec<Option<Held>> = (0..SLOTS).map(|_| None).collect();
    let mut run: Vec<(Call, Out)> = vec![];
    let mut good = true;
    rec.kind("history made up by the specification");
    for e in j.a() {
        let op = text(e.get("op"));
        let w = |k: &str| word_of(e.get(k));
        let n = |k: &str| e.get(k).n();
        if op == "iter" {
            let s = n("it") as usize;
            let (h, o) = Held::new(cx, s, w("w"), n("res"));
            good &= o == Out::Ok(Val::Unit);
            run.push(h.past[0].clone());
            held[s] = Some(h);
        } else if matches!(op, "next" | "jump" | "left" | "last" | "least" | "rest") {
            let s = n("it") as usize;
            // an iterator that was never made has nothing
            let Some(h) = held[s].as_mut() else { continue };
            let (op, a) = match op {
                "next" => (Op::Next, 0),
                "jump" => (Op::Jump, num_of(e.get("n")) as i64),
                "left" => (Op::Left, 0),
                "least" => (Op::Least, 0),
                "rest" => (Op::Rest, 0),
                _ => (Op::Last, 0),
            };
            let (k, o, _) = h.ask(cx, s, op, a);
            let want = match text(e.get("o")) {
                "some" => Out::Some(w("v")),
                "none" => Out::End,
                _ if op == Op::Rest => Out::Ok(Val::Words(e.get("v").a().iter().map(word_of).collect())),
                _ => Out::Ok(Val::Big(num_of(e.get("v")))),
            };
            good &= o == want;
            run.push((k, o));
        } else {
            let k = match op {
                "valid" => Call::w(Op::Valid, w("w")),
                "get" => {
                    let f = FIELD_NAMES.iter().position(|x| *x == text(e.get("f"))).unwrap();
                    Call::new(Op::Get, w("w"), 0, f as i64, n("r"), 0)
                }
                "pent" => Call::w(Op::Pent, w("w")),
                "size" => Call::wa(Op::Size, w("w"), n("res")),
                "childpos" => Call::new(Op::ChildPos, w("w"), 0, n("res"), num_of(e.get("pos")) as i64, 0),
                "children" => Call::wa(Op::Children, w("w"), n("res")),
                "neighbor" => Call::new(Op::Neighbor, w("w"), 0, n("d"), n("n"), 0),
                "dirto" => Call::wz(Op::DirTo, w("w"), w("z")),
                "disk" => Call::wa(Op::Disk, w("w"), n("k")),
                "fastdisk" => Call::wa(Op::FastDisk, w("w"), n("k")),
                "edge" => Call::wz(Op::Edge, w("w"), w("z")),
                "edgevalid" => Call::w(Op::EdgeValid, w("w")),
                "edgeorigin" => Call::w(Op::EdgeOrigin, w("w")),
                "edgedest" => Call::w(Op::EdgeDest, w("w")),
                "edges" => Call::w(Op::Edges, w("w")),
                "back" => Call::wa(Op::Back, w("w"), n("res")),
                "around" => Call::wa(Op::Around, w("w"), cx.spec.is_pent(&cx.spec.cell_of(w("w")).unwrap()) as i64),
                "bound" => Call::wa(Op::Bound, 0, num_of(e.get("k")) as i64),
                x => panic!("harness: {} in a history", x),
            };
            let o = call(&k);
            let same = match (text(e.get("o")), &o) {
                ("err", Out::Err(x)) => x == text(e.get("e")),
                ("err", _) => false,
                (_, Out::Ok(v)) => {
                    let v2 = match v {
                        Val::Bool(_) => Val::Bool(match e.get("v") { J::Bool(b) => *b, _ => panic!("truth expected") }),
                        Val::Int(_) => Val::Int(n("v")),
                        Val::Big(_) => Val::Big(num_of(e.get("v"))),
                        Val::Word(_) => Val::Word(w("v")),
                        Val::WordRot(_, m) => Val::WordRot(w("v"), *m),
                        Val::Words(_) => Val::Words(e.get("v").a().iter().map(word_of).collect()),
                        Val::Pairs(_) => Val::Pairs(e.get("v").a().iter().map(|p| (word_of(&p.a()[0]), p.a()[1].n() as u32)).collect()),
                        x => x.clone(),
                    };
                    // their order is judged apart
                    if op == "children" { v2 == *v } else { sorted(&Out::Ok(v2)) == sorted(&o) }
                }
                _ => false,
            };
            good &= same && cx.accept(&k, &o);
            run.push((k, o));
        }
        if !good {
            break;
        }
    }
    *rec.counts.entry("followed").or_insert(0) += run.len() as u64;
    if !good {
        rec.nsus += 1;
        rec.bad_runs = true;
    }
    if !good && rec.runs.len() < 12 || keep {
        rec.runs.push(run);
    }
}
