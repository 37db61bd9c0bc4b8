//! For each property, the calls that are made: exhaustive families at coarse
//! resolutions, generated ones at every resolution.
use crate::accept::*;
use crate::call::*;
use crate::gen::KINDS;
use crate::mirror::*;
use crate::run::*;
use h3_rs::iterators::IterCellsChildren;

pub struct Plan<'a> {
    pub cx: &'a Cx,
    pub seed: u64,
    pub deep: bool,
    pub jobs: Vec<Job<'a>>,
    stream: u64,
    times: usize,
}

pub fn spacing(r: usize) -> i64 {
    let mut p = (-2i64, 2i64);
    for i in 1..=r {
        p = to_finer(i, p);
    }
    p.0.abs().max(p.1.abs()).max((p.0 - p.1).abs())
}

impl<'a> Plan<'a> {
    /// quick / thorough size
    fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.deep {
            thorough
        } else {
            quick
        }
    }
    /// `count` generated cases, spread over jobs; about `sampled` go to TLC
    /// for each kind of call
    fn random(&mut self, count: usize, sampled: usize, f: impl Fn(&mut Rec, &Cx, &mut Rng) + Send + Sync + Clone + 'a) {
        let count = count * self.times;
        let parts = 64.min(count).max(1);
        let per = count.div_ceil(parts);
        let every = (count / sampled.max(1)).max(1) as u64;
        for _ in 0..parts {
            self.stream += 1;
            let (cx, seed, stream) = (self.cx, self.seed, self.stream);
            let f = f.clone();
            self.jobs.push(Box::new(move |rec| {
                rec.every = every.min(per as u64);
                let mut g = Rng::new(seed, stream);
                for _ in 0..per {
                    f(rec, cx, &mut g);
                }
            }));
        }
    }
    /// every cell of resolution r; one call in `every` of each kind goes to TLC
    fn exhaustive(&mut self, r: usize, every: u64, f: impl Fn(&mut Rec, &Cx, &Cell) + Send + Sync + Clone + 'a) {
        for b in 0..122u8 {
            let cx = self.cx;
            let f = f.clone();
            self.jobs.push(Box::new(move |rec| {
                rec.every = every;
                rec.phase = (b as u64) * 7919;
                rec.exhaustive = true;
                let mut stack = vec![Cell::base(b)];
                // depth first, in order, without keeping them all
                while let Some(c) = stack.pop() {
                    if c.res as usize == r {
                        rec.kind("exhaustive");
                        f(rec, cx, &c);
                    } else {
                        for d in (0..7).rev() {
                            let k = c.child(d);
                            if cx.spec.is_cell(&k) {
                                stack.push(k);
                            }
                        }
                    }
                }
            }));
        }
    }
    fn once(&mut self, f: impl Fn(&mut Rec, &Cx) + Send + Sync + 'a) {
        let cx = self.cx;
        self.jobs.push(Box::new(move |rec| {
            rec.every = 1;
            f(rec, cx)
        }));
    }
}

fn any_cell(rec: &mut Rec, cx: &Cx, g: &mut Rng) -> Cell {
    any_cell_to(rec, cx, g, 15)
}
fn any_cell_to(rec: &mut Rec, cx: &Cx, g: &mut Rng, top: usize) -> Cell {
    let r = g.below(top as u64 + 1) as usize;
    let (c, k) = cx.cell(g, r);
    rec.kind(KINDS[k]);
    c
}
/// a child resolution: mostly proper, sometimes not
fn child_res(g: &mut Rng, c: &Cell) -> i64 {
    match g.below(14) {
        13 => cx_of().lit(g).clamp(i32::MIN as i64, i32::MAX as i64),
        0 => g.range(-3, c.res as i64),
        1 => 16 + g.below(3) as i64,
        2 => *g.pick(&[i32::MIN as i64, i32::MAX as i64, -1, 16, 64, 255]),
        6 => {
            // right but for bits above the low ones
            let m = *g.pick(&[16i64, 32, 64, 128, 256, 512, 4096, 65536, 1 << 24, 1 << 31]);
            let x = g.range(c.res as i64, 15) + if g.chance(1, 2) { m } else { -m };
            x.clamp(i32::MIN as i64, i32::MAX as i64)
        }
        3 => c.res as i64,
        4 => 15,
        _ => g.range(c.res as i64, 15),
    }
}

pub fn plan<'a>(cx: &'a Cx, prop: &str, seed: u64, deep: bool) -> Plan<'a> {
    // as many as can be done in a few seconds
    let times = match prop {
        "C01" => 20,
        "C02" | "C03" | "C06" | "C07" | "C12" | "C16" | "C21" | "C15" | "C18" => 80,
        "C05" => 100,
        "C10" | "C11" => 30,
        _ => 40,
    };
    // the thorough plans name larger numbers
    let times = match prop {
        _ if !deep => times,
        "C24" => 1,
        "C01" | "C10" | "C11" => 2,
        _ => times / 4,
    };
    let mut p = Plan { cx, seed, deep, jobs: vec![], stream: 1000, times };
    match prop {
        "C01" => c01(&mut p),
        "C02" => c02(&mut p),
        "C03" => c03(&mut p),
        "C04" => c04(&mut p),
        "C05" => c05(&mut p),
        "C06" => c06(&mut p),
        "C07" => c07(&mut p),
        "C08" => c08(&mut p),
        "C09" => c09(&mut p),
        "C10" => c10(&mut p),
        "C11" => c11(&mut p),
        "C12" => c12(&mut p),
        "C13" => c13(&mut p),
        "C14" => c14(&mut p),
        "C15" => c15(&mut p),
        "C16" => c16(&mut p),
        "C17" => c17(&mut p),
        "C18" => c18(&mut p),
        "C19" => c19(&mut p),
        "C20" => c20(&mut p),
        "C21" => c21(&mut p),
        "C22" => c22(&mut p),
        "C23" => c23(&mut p),
        "C24" => c24(&mut p),
        _ => panic!("no property {}", prop),
    }
    p
}

// ------------------------------------------------------------------- C01 --
fn deviations(w: u64) -> Vec<u64> {
    let f = fields(w);
    let mut v = vec![w];
    let mut put = |g: Fields| v.push(unfields(&g));
    put(Fields { hb: 1, ..f });
    for x in 0..16 {
        put(Fields { mode: x, ..f });
        put(Fields { res: x, ..f });
    }
    for x in 0..8 {
        put(Fields { rsv: x, ..f });
    }
    for x in 0..128 {
        put(Fields { bc: x, ..f });
    }
    for i in 0..15 {
        for x in 0..8 {
            let mut g = f;
            g.ds[i] = x;
            put(g);
        }
    }
    v
}
fn c01(p: &mut Plan) {
    for b in 0..128u8 {
        // every digit string of a few digits, 7s included, at every base cell number
        let top = p.n(4, 6);
        p.jobs.push(Box::new(move |rec| {
            rec.exhaustive = true;
            rec.every = 1999;
            for r in 0..=top {
                for n in 0..8u64.pow(r as u32) {
                    let mut ds = [7u8; 15];
                    for i in 0..r {
                        ds[i] = ((n >> (3 * i)) & 7) as u8;
                    }
                    let w = unfields(&Fields { hb: 0, mode: 1, rsv: 0, res: r as u8, bc: b, ds });
                    rec.kind("every digit string");
                    rec.go(cx_of(), Call::w(Op::Valid, w));
                }
            }
        }));
    }
    let n = p.n(60_000, 1_500_000);
    p.random(n, 60, |rec, cx, g| {
        let c = any_cell(rec, cx, g);
        for w in deviations(c.word()) {
            rec.go(cx, Call::w(Op::Valid, w));
        }
    });
    let n = p.n(1_000_000, 30_000_000);
    p.random(n, 3000, |rec, cx, g| {
        let mut w = cx.word(g);
        if g.chance(1, 3) {
            // two deviations
            let v = deviations(w);
            w = *g.pick(&v);
        }
        rec.kind("disturbed word");
        rec.go(cx, Call::w(Op::Valid, w));
    });
    // pentagon base cells: every place and value of the first digit
    p.once(|rec, cx| {
        rec.every = 7;
        rec.exhaustive = true;
        for b in cx.pents() {
            for r in 0..=15u8 {
                for z in 0..=r {
                    for d in 0..8u8 {
                        for rest in 0..7u8 {
                            let mut ds = [7u8; 15];
                            for i in 0..r as usize {
                                ds[i] = if i < z as usize { 0 } else if i == z as usize { d } else { rest };
                            }
                            let w = unfields(&Fields { hb: 0, mode: 1, rsv: 0, res: r, bc: b, ds });
                            rec.kind("pentagon's leading digit");
                            rec.go(cx, Call::w(Op::Valid, w));
                        }
                    }
                }
            }
        }
    });
}
static CX: std::sync::OnceLock<&'static Cx> = std::sync::OnceLock::new();
pub fn set_cx(c: &'static Cx) {
    let _ = CX.set(c);
}
fn cx_of() -> &'static Cx {
    CX.get().unwrap()
}

// ------------------------------------------------------------------- C02 --
fn special(g: &mut Rng) -> f64 {
    let pi = std::f64::consts::PI;
    match g.below(5) {
        0 => *g.pick(&[
            0.0, -0.0, pi, -pi, pi / 2.0, -pi / 2.0, 2.0 * pi, -2.0 * pi, 1e300, -1e300, f64::MAX, f64::MIN,
            f64::MIN_POSITIVE, 5e-324, -5e-324, 1e9, -1e9, 1e16, 90.0, 180.0, -180.0, 360.0, f64::EPSILON,
        ]),
        1 => *g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN]),
        2 => {
            let mut x = f64::from_bits(g.next());
            if !x.is_finite() && g.chance(3, 4) {
                x = 1.0
            }
            x
        }
        3 => {
            let x = *g.pick(&[0.0, pi, -pi, pi / 2.0, -pi / 2.0, 2.0 * pi, -2.0 * pi]);
            f64::from_bits((x as f64).to_bits().wrapping_add(g.below(9)).wrapping_sub(4))
        }
        _ => (g.f() - 0.5) * 14.0,
    }
}
fn c02(p: &mut Plan) {
    let n = p.n(600_000, 20_000_000);
    p.random(n, 2500, |rec, cx, g| {
        let (x, y, kind) = match g.below(3) {
            0 => cx.point(g, 15),
            _ => (special(g), special(g), "special coordinates"),
        };
        let r = match g.below(8) {
            0 => g.range(-3, -1),
            1 => g.range(16, 20),
            2 => *g.pick(&[i32::MIN as i64, i32::MAX as i64, -1, 16, 255]),
            3 => g.below(16) as i64 + *g.pick(&[16i64, 32, 64, 128, 256, -256, 65536, -65536, 1 << 24]),
            _ => g.below(16) as i64,
        };
        rec.kind(kind);
        rec.go(cx, Call::new(Op::Encode, x.to_bits(), y.to_bits(), r, 0, 0));
    });
    // every face's three corners, edge middles and centre, and around, at every resolution
    p.once(|rec, cx| {
        for f in 0..20 {
            for (a, b) in [(2.0, 0.0), (0.0, 2.0), (-2.0, -2.0), (0.0, 0.0), (1.0, 1.0), (0.0, -1.0), (-1.0, 0.0)] {
                for e in [0.0, 1e-16, -1e-16, 1e-12, -1e-12, 1e-9, 1e-6] {
                    let (x, y) = cx.geo.point(f, a + e, b - e);
                    for r in 0..16 {
                        rec.kind("face corner, middle or centre");
                        rec.go(cx, Call::new(Op::Encode, x.to_bits(), y.to_bits(), r, 0, 0));
                    }
                }
            }
        }
        for x in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.5, 1e300] {
            for y in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.5, 1e300] {
                for r in -2..18 {
                    rec.kind("special coordinates");
                    rec.go(cx, Call::new(Op::Encode, x.to_bits(), y.to_bits(), r, 0, 0));
                }
            }
        }
    });
}

// ------------------------------------------------------------------- C03 --
fn locate(rec: &mut Rec, cx: &Cx, x: f64, y: f64, r: usize, kind: &str) {
    let q = cx.geo.query(x, y, r);
    if q.tol > 2000 {
        rec.kind("skipped: too fine for floating point");
        return;
    }
    rec.kind(kind);
    rec.go(cx, Call::new(Op::Locate, x.to_bits(), y.to_bits(), r as i64, 0, 0));
}
fn c03(p: &mut Plan) {
    let n = p.n(500_000, 20_000_000);
    p.random(n, 6000, |rec, cx, g| {
        let r = g.below(16) as usize;
        let (x, y, kind) = cx.point(g, r);
        locate(rec, cx, x, y, r, kind);
    });
    // the corners and sides of every cell, just inside and outside
    for r in 0..=p.n(2, 4) {
        let every = [17, 97, 701, 4999, 35001][r];
        p.exhaustive(r, every, move |rec, cx, c| {
            let s = scale_of(r) as f64;
            let (f, z) = cx.spec.point_of(c);
            for k in 1..7 {
                let w = to_class2(r, cx.spec.u[k]);
                let v = rot1(w);
                for e in [0.99, 1.01] {
                    let t = 0.5 * e;
                    let (x, y) = cx.geo.point(f, (z.0 as f64 + t * w.0 as f64) / s, (z.1 as f64 + t * w.1 as f64) / s);
                    locate(rec, cx, x, y, r, "every side");
                    let t = e / 3.0;
                    let (x, y) = cx.geo.point(
                        f,
                        (z.0 as f64 + t * (w.0 + v.0) as f64) / s,
                        (z.1 as f64 + t * (w.1 + v.1) as f64) / s,
                    );
                    locate(rec, cx, x, y, r, "every corner");
                }
            }
        });
    }
}

// ------------------------------------------------------------------- C04 --
fn c04(p: &mut Plan) {
    for r in 0..=p.n(5, 7) {
        let every = [1, 3, 23, 151, 997, 7001, 49999, 349_981][r];
        p.exhaustive(r, every, move |rec, cx, c| {
            rec.go(cx, Call::w(Op::Centre, c.word()));
            rec.go(cx, Call::wa(Op::Back, c.word(), r as i64));
        });
    }
    let n = p.n(500_000, 20_000_000);
    p.random(n, 3000, |rec, cx, g| {
        let c = any_cell(rec, cx, g);
        rec.go(cx, Call::w(Op::Centre, c.word()));
        rec.go(cx, Call::wa(Op::Back, c.word(), c.res as i64));
    });
    p.once(|rec, cx| {
        for b in 0..122u8 {
            for d in 0..7 {
                let mut c = Cell::base(b);
                for r in 0..16 {
                    if r > 0 {
                        c = c.child(d);
                    }
                    if cx.spec.is_cell(&c) {
                        rec.kind("one digit throughout");
                        rec.every = 9;
                        rec.go(cx, Call::w(Op::Centre, c.word()));
                        rec.go(cx, Call::wa(Op::Back, c.word(), c.res as i64));
                    }
                }
            }
        }
    });
}

// ------------------------------------------------------------------- C05 --
/// the whole enumeration, by the collecting call and by the iterator,
/// compared as it comes; a difference is recorded as single events
fn enumerate(rec: &mut Rec, cx: &Cx, c: &Cell, res: i64) {
    let n = (res - c.res as i64) as usize;
    let total = count(cx.spec.is_pent(c), n as u32);
    let k = Call::new(Op::Iter, c.word(), 0, res, 1, 0);
    let mut bad: i64 = -1;
    let o = guard(&k, || {
        let mut it = IterCellsChildren::from_parent(c.word(), res as i32);
        let mut e = cx.child_at(c, n, 0);
        for i in 0..total {
            if it.next() != Some(e.word()) {
                bad = i as i64;
                return Out::Ok(Val::Unit);
            }
            // successor, by hand
            let mut j = res as usize;
            while j > c.res as usize {
                e.ds[j - 1] += 1;
                if e.ds[j - 1] < 7 {
                    if !cx.spec.is_cell(&e) {
                        continue;
                    }
                    break;
                }
                e.ds[j - 1] = 0;
                j -= 1;
            }
        }
        for _ in 0..3 {
            if it.next().is_some() {
                bad = total as i64;
            }
        }
        Out::Ok(Val::Unit)
    });
    rec.kind(&format!("whole enumeration, {} levels", n));
    if o != Out::Ok(Val::Unit) {
        rec.note(&k, o, false);
    } else if bad == 0 {
        iterate(rec, cx, c.word(), res, 3);
    } else if bad > 0 {
        let z = cx.child_at(c, n, bad as i128 - 1).word();
        rec.go(cx, Call::new(Op::Succ, c.word(), z, res, bad, 0));
        if rec.nsus == 0 {
            // only the exhausted iterator misbehaves
            iterate(rec, cx, c.word(), res, total as usize + 4);
        }
    } else {
        rec.note(&k, Out::Ok(Val::Unit), true);
        rec.sample.pop_if(|x| x.0.op == Op::Iter);
    }
    if total <= 20_000 {
        let k = Call::wa(Op::Children, c.word(), res);
        rec.go(cx, k);
    }
}
/// the whole list of a deep enumeration; a difference is recorded as the
/// one element where it is
fn long_list(rec: &mut Rec, cx: &Cx, c: &Cell, res: i64) {
    let n = (res - c.res as i64) as usize;
    let total = count(cx.spec.is_pent(c), n as u32);
    let k = Call::new(Op::Nth, c.word(), 0, res, -1, 0);
    let mut bad: Option<(i128, Out)> = None;
    let o = guard(&k, || match h3_rs::h3_index::cellToChildren(c.word(), res as i32) {
        Err(e) => Out::Err(format!("{:?}", e)),
        Ok(v) => {
            let mut i = 0i128;
            walk_children(cx, c, n, &mut |e| {
                if bad.is_none() && v.get(i as usize) != Some(&e) {
                    bad = Some((i, match v.get(i as usize) { Some(x) => Out::Some(*x), None => Out::End }));
                }
                i += 1;
            });
            if bad.is_none() && v.len() as i128 > total {
                bad = Some((total, Out::Some(v[total as usize])));
            }
            Out::Ok(Val::Unit)
        }
    });
    rec.kind(&format!("whole list, {} levels", n));
    match (o, bad) {
        (Out::Ok(_), None) => {
            // for TLC: an element and the end
            rec.note(&Call::new(Op::Nth, c.word(), 0, res, total as i64, 0), Out::End, true);
            let at = total as i64 * 3 / 5;
            rec.note(&Call::new(Op::Nth, c.word(), 0, res, at, 0), Out::Some(cx.child_at(c, n, at as i128).word()), true);
        }
        (Out::Ok(_), Some((i, o))) => rec.note(&Call::new(Op::Nth, c.word(), 0, res, i as i64, 0), o, false),
        (o, _) => rec.note(&Call::new(Op::Nth, c.word(), 0, res, 0, 0), o, false),
    }
}
/// all descendants n levels down, in order
fn walk_children(cx: &Cx, c: &Cell, n: usize, f: &mut dyn FnMut(u64)) {
    if n == 0 {
        f(c.word());
        return;
    }
    if n == 1 || !cx.spec.is_pent(c) {
        // a block of plain digits, by counting
        if !cx.spec.is_pent(c) {
            let r = c.res as usize + n;
            let mut e = *c;
            for _ in 0..n {
                e = e.child(0);
            }
            let mut w = e.word();
            let total = 7u64.pow(n as u32);
            for _ in 0..total {
                f(w);
                let mut j = r;
                while j > c.res as usize {
                    let sh = 3 * (15 - j);
                    if (w >> sh) & 7 == 6 {
                        w &= !(7u64 << sh);
                        j -= 1;
                    } else {
                        w += 1 << sh;
                        break;
                    }
                }
            }
            return;
        }
    }
    for d in 0..7 {
        let k = c.child(d);
        if cx.spec.is_cell(&k) {
            walk_children(cx, &k, n - 1, f);
        }
    }
}
/// an iteration recorded step by step, for the specification's iterator
fn iterate(rec: &mut Rec, cx: &Cx, w: u64, res: i64, steps: usize) {
    let k = Call::new(Op::Iter, w, 0, res, 0, 0);
    let mut run = vec![];
    let mut it = None;
    let o = guard(&k, || {
        it = Some(IterCellsChildren::from_parent(w, res as i32));
        Out::Ok(Val::Unit)
    });
    run.push((k, o));
    if let Some(mut it) = it {
        for i in 0..steps {
            let k = Call::new(Op::Next, w, 0, res, i as i64, 0);
            let o = guard(&k, || match it.next() {
                Some(x) => Out::Some(x),
                None => Out::End,
            });
            *rec.counts.entry("next").or_insert(0) += 1;
            let stop = !matches!(o, Out::Some(_) | Out::End);
            run.push((k, o));
            if stop {
                break;
            }
        }
    }
    // screened by the native reading, for the count of suspicious ones
    if let Some(c) = cx.spec.cell_of(w) {
        let n = res - c.res as i64;
        let total = if (0..=15).contains(&n) && res <= 15 { count(cx.spec.is_pent(&c), n as u32) } else { 0 };
        for (i, (_, o)) in run[1..].iter().enumerate() {
            let want = if (i as i128) < total { Out::Some(cx.child_at(&c, n as usize, i as i128).word()) } else { Out::End };
            if *o != want {
                rec.nsus += 1;
                rec.bad_runs = true;
                break;
            }
        }
    }
    rec.runs.push(run);
}
fn c05(p: &mut Plan) {
    // complete enumerations of a few levels, below every kind of cell
    let n = p.n(12_000, 200_000);
    let most = p.n(4, 5) as i64;
    p.random(n, 250, move |rec, cx, g| {
        let c = any_cell(rec, cx, g);
        let n = if g.chance(1, 6) { most } else { g.range(0, 3) };
        let res = (c.res as i64 + n).min(15);
        enumerate(rec, cx, &c, res);
    });
    // every cell of the coarse resolutions, to a few levels
    for r in 0..=2usize {
        let m = p.n([4, 3, 2][r], [5, 4, 3][r]) as i64;
        p.exhaustive(r, 60, move |rec, cx, c| {
            for n in 0..=m {
                enumerate(rec, cx, c, r as i64 + n);
            }
        });
    }
    // long ones
    let n = p.n(16, 60);
    let far = p.n(7, 8) as i64;
    p.random(n, 4, move |rec, cx, g| {
        let c = if g.chance(1, 2) {
            cx.near_pent(g, 0)
        } else {
            any_cell_to(rec, cx, g, 8)
        };
        let c = if g.chance(1, 3) { Cell::base(*g.pick(&cx.pents())) } else { c };
        enumerate(rec, cx, &c, (c.res as i64 + far).min(15));
    });
    // very long ones
    for i in 0..p.n(4, 8) as u64 {
        let deep = p.deep;
        let seed = p.seed;
        p.jobs.insert(0, Box::new(move |rec| {
            let cx = cx_of();
            rec.every = 1;
            let mut g = Rng::new(seed, 77_000 + i);
            let n = if deep && i < 2 { 10 } else if i < 2 || deep { 9 } else { 8 };
            let r = g.below(16 - n) as usize;
            let mut c = if i % 2 == 0 { Cell::base(*g.pick(&cx.pents())) } else { cx.uniform(&mut g, r) };
            if i % 2 == 0 {
                for _ in 0..r {
                    c = c.child(0);
                }
            }
            enumerate(rec, cx, &c, c.res as i64 + n as i64);
            if n < 10 {
                long_list(rec, cx, &c, c.res as i64 + n as i64);
            }
        }));
    }
    let n = p.n(8, 60);
    p.random(n, n, |rec, cx, g| {
        let c = any_cell_to(rec, cx, g, 7);
        let n = g.range(6, 8);
        long_list(rec, cx, &c, c.res as i64 + n);
    });
    // recorded iterations: complete short ones, starts of long ones, improper ones
    let n = p.n(45, 1500);
    p.random(n, n, |rec, cx, g| {
        let c = any_cell(rec, cx, g);
        let res = child_res(g, &c);
        let lv = res - c.res as i64;
        let total = if (0..=15).contains(&lv) && res <= 15 { count(cx.spec.is_pent(&c), lv as u32).min(60) } else { 0 };
        iterate(rec, cx, c.word(), res, total as usize + 3);
    });
    let n = p.n(40_000, 1_000_000);
    p.random(n, 300, |rec, cx, g| {
        let c = any_cell(rec, cx, g);
        let res = child_res(g, &c);
        let lv = res - c.res as i64;
        if lv <= 3 || res > 15 {
            rec.go(cx, Call::new(Op::Children, c.word(), 0, res, g.range(-8, 15).max(0), 0));
        }
    });
}

// ------------------------------------------------------------------- C06 --
fn c06(p: &mut Plan) {
    for r in 0..=p.n(2, 4) {
        p.exhaustive(r, [23, 151, 997, 7001, 49999][r], |rec, cx, c| {
            for res in -2..19 {
                rec.go(cx, Call::wa(Op::Size, c.word(), res));
            }
        });
    }
    p.once(|rec, cx| {
        rec.every = 5;
        for b in cx.pents().into_iter().chain([0, 1, 121]) {
            let mut c = Cell::base(b);
            for r in 0..16 {
                if r > 0 {
                    c = c.child(0);
                }
                for res in -1..17 {
                    rec.kind("pentagons, all levels");
                    rec.go(cx, Call::wa(Op::Size, c.word(), res));
                }
            }
        }
    });
    let n = p.n(400_000, 10_000_000);
    p.random(n, 3000, |rec, cx, g| {
        let c = any_cell(rec, cx, g);
        let res = child_res(g, &c);
        rec.go(cx, Call::wa(Op::Size, c.word(), res));
    });
}

// ------------------------------------------------------------------- C07 --
fn c07(p: &mut Plan) {
    // every position, at a few levels
    for r in 0..=1usize {
        let m = p.n([3, 2][r], [4, 3][r]) as i64;
        p.exhaustive(r, [211, 307][r], move |rec, cx, c| {
            for n in 0..=m {
                let total = count(cx.spec.is_pent(c), n as u32) as i64;
                for i in -1..=total {
                    rec.go(cx, Call::new(Op::ChildPos, c.word(), 0, r as i64 + n, i, 0));
                }
            }
        });
    }
    p.once(|rec, cx| {
        rec.every = 41;
        // pentagons at every resolution, every position up to three levels
        for b in cx.pents() {
            let mut c = Cell::base(b);
            for r in 0..15i64 {
                if r > 0 {
                    c = c.child(0);
                }
                for n in 0..=3.min(15 - r) {
                    let total = count(true, n as u32) as i64;
                    for i in -1..=total {
                        rec.kind("pentagons");
                        rec.go(cx, Call::new(Op::ChildPos, c.word(), 0, r + n, i, 0));
                    }
                }
            }
        }
    });
    let n = p.n(600_000, 20_000_000);
    p.random(n, 5000, |rec, cx, g| {
        let c = match g.below(4) {
            0 => {
                let r = g.below(16) as usize;
                let mut c = Cell::base(*g.pick(&cx.pents()));
                for _ in 0..r {
                    c = c.child(0)
                }
                rec.kind("pentagons");
                c
            }
            _ => any_cell(rec, cx, g),
        };
        let res = child_res(g, &c);
        let lv = res - c.res as i64;
        let total = if (0..=15).contains(&lv) && res <= 15 { count(cx.spec.is_pent(&c), lv as u32) as i64 } else { 50 };
        let pos = match g.below(11) {
            10 => cx.lit(g),
            0 => -1 - g.below(3) as i64,
            1 => total + g.below(3) as i64,
            2 => total - 1 - g.below(3) as i64,
            3 => *g.pick(&[i64::MIN, i64::MAX, i32::MAX as i64, 1 << 31, 1 << 32, -(1 << 31), 0]),
            4 | 5 => {
                // around the borders between subtrees
                let mut e = cx.uniform(g, 0);
                e.bc = c.bc;
                let m = g.below(lv.max(0) as u64 + 1) as u32;
                let unit = if m <= 15 { 7i64.pow(m.min(15)) } else { 1 };
                let pu = if m <= 15 { count(true, m) as i64 } else { 1 };
                let off = g.range(-1, 1);
                let q = g.below(7) as i64;
                (if g.chance(1, 2) { pu + (q - 1).max(0) * unit } else { q * unit }) + off
            }
            6 => {
                // few levels' worth of digits set: many zero digits
                let m = g.below(lv.max(1) as u64) as u32;
                g.below(7i64.pow(m.min(15)) as u64 + 1) as i64
            }
            _ => (g.next() % (total.max(1) as u64)) as i64,
        };
        rec.go(cx, Call::new(Op::ChildPos, c.word(), 0, res, pos, 0));
    });
}

// ------------------------------------------------------------------- C08 --
fn c08(p: &mut Plan) {
    for r in 1..=p.n(5, 7) {
        let every = [0, 3, 23, 151, 997, 7001, 49999, 349_981][r];
        p.exhaustive(r, every, move |rec, cx, c| {
            rec.go(cx, Call::wa(Op::Back, c.word(), r as i64 - 1));
            if c.ds[r - 1] == 0 {
                rec.go(cx, Call::wz(Op::CentreOf, c.parent().word(), c.word()));
            }
        });
    }
    let n = p.n(500_000, 20_000_000);
    p.random(n, 3000, |rec, cx, g| {
        let c = any_cell(rec, cx, g);
        if c.res > 0 {
            rec.go(cx, Call::wa(Op::Back, c.word(), c.res as i64 - 1));
        }
        if c.res > 0 && g.chance(1, 4) {
            // a whole family
            for d in 0..7 {
                let k = c.parent().child(d);
                if cx.spec.is_cell(&k) {
                    rec.go(cx, Call::wa(Op::Back, k.word(), c.res as i64 - 1));
                }
            }
        }
        if c.res < 15 {
            rec.go(cx, Call::wz(Op::CentreOf, c.word(), c.child(0).word()));
        }
        // coarser still: the region that contains the centre
        if c.res > 1 {
            let r = g.below(c.res as u64 - 1) as i64;
            rec.go(cx, Call::wa(Op::Back, c.word(), r));
        }
    });
}

// ------------------------------------------------------------------- C09 --
fn around(rec: &mut Rec, cx: &Cx, c: &Cell) {
    let p = cx.spec.is_pent(c);
    rec.go(cx, Call::wa(Op::Around, c.word(), p as i64));
    rec.go(cx, Call::new(Op::Neighbor, c.word(), 0, 0, 0, 0));
}
fn c09(p: &mut Plan) {
    for r in 0..=p.n(5, 6) {
        let every = [1, 3, 23, 151, 997, 7001, 49999][r];
        p.exhaustive(r, every, |rec, cx, c| around(rec, cx, c));
    }
    for r in 0..=p.n(2, 4) {
        let every = [3, 23, 151, 997, 7001][r];
        p.exhaustive(r, every, |rec, cx, c| {
            for n in 0..6 {
                for d in 0..7 {
                    rec.go(cx, Call::new(Op::Neighbor, c.word(), 0, d, n, 0));
                }
            }
            for e in cx.spec.neighbors(c) {
                rec.go(cx, Call::wz(Op::DirTo, c.word(), e.word()));
            }
        });
    }
    let n = p.n(300_000, 15_000_000);
    p.random(n, 2000, |rec, cx, g| {
        let r = g.below(16) as usize;
        if g.chance(1, 4) {
            let (c, d) = cx.carry(g, r);
            rec.kind(KINDS[4]);
            rec.go(cx, Call::new(Op::Neighbor, c.word(), 0, d as i64, 0, 0));
            if let Mv::Ok(e, _) = cx.spec.mv(&c, d) {
                around(rec, cx, &e);
            }
        }
        let c = any_cell(rec, cx, g);
        around(rec, cx, &c);
        rec.go(cx, Call::new(Op::Neighbor, c.word(), 0, g.below(7) as i64, g.below(6) as i64, 0));
        let e = other(cx, g, &c);
        rec.go(cx, Call::wz(Op::DirTo, c.word(), e.word()));
    });
}
/// another cell of the same resolution: adjacent, nearly so, or not
fn other(cx: &Cx, g: &mut Rng, c: &Cell) -> Cell {
    match g.below(8) {
        0 => *c,
        1 => cx.cell(g, c.res as usize).0,
        2 | 3 => {
            let n = cx.spec.neighbors(c);
            let m = cx.spec.neighbors(g.pick(&n));
            *g.pick(&m)
        }
        4 => {
            // one digit away
            let mut e = *c;
            if c.res > 0 {
                e.ds[g.below(c.res as u64) as usize] = g.below(7) as u8;
            } else {
                e.bc = g.below(122) as u8;
            }
            if cx.spec.is_cell(&e) {
                e
            } else {
                *c
            }
        }
        _ => {
            let n = cx.spec.neighbors(c);
            *g.pick(&n)
        }
    }
}

// ------------------------------------------------------------------- C10 --
fn disks(rec: &mut Rec, cx: &Cx, c: &Cell, ks: &[usize]) {
    let top = *ks.iter().max().unwrap();
    let ball = cx.ball(c, top);
    for k in ks {
        let n = ball.partition_point(|x| x.1 as usize <= *k);
        let call_ = Call::wa(Op::Disk, c.word(), *k as i64);
        let o = tried(&call_);
        let good = cx.disk_ok(&ball[..n], &o, false) && within_bound(&o, *k);
        heavy(rec, *k, |rec| rec.note(&call_, o, good));
    }
}
/// wide ones are costly to judge again: few of them
fn heavy(rec: &mut Rec, k: usize, f: impl FnOnce(&mut Rec)) {
    let every = rec.every;
    if every > 0 {
        rec.every = every * match k {
            0..=6 => 1,
            7..=12 => 4,
            13..=20 => 40,
            _ => 100,
        };
    }
    f(rec);
    rec.every = every;
}
fn within_bound(o: &Out, k: usize) -> bool {
    match o {
        Out::Ok(Val::Pairs(v)) => v.len() <= 3 * k * (k + 1) + 1,
        _ => false,
    }
}
fn c10(p: &mut Plan) {
    for r in 0..=2usize {
        let top = p.n([8, 8, 4][r], [12, 20, 12][r]);
        p.exhaustive(r, [13, 97, 499][r], move |rec, cx, c| {
            let ks: Vec<usize> = (0..=top).collect();
            disks(rec, cx, c, &ks);
        });
    }
    // around the pentagons, every cell and every radius
    let n = p.n(4, 10);
    for b in cx_of().pents() {
        for r in [1usize, 2, 3, 4, 7, 8, 11, 14, 15] {
            p.jobs.push(Box::new(move |rec| {
                rec.every = 211;
                let cx = cx_of();
                let mut c = Cell::base(b);
                for _ in 0..r {
                    c = c.child(0);
                }
                for (e, _) in cx.ball(&c, n) {
                    rec.kind("pentagon area, every cell");
                    let ks: Vec<usize> = (0..=6).collect();
                    disks(rec, cx, &e, &ks);
                }
            }));
        }
    }
    let n = p.n(30_000, 500_000);
    p.random(n, 600, |rec, cx, g| {
        let c = any_cell(rec, cx, g);
        let k = g.below(7) as usize;
        disks(rec, cx, &c, &[k]);
    });
    let n = p.n(1500, 40_000);
    let wide = p.n(40, 120) as i64;
    p.random(n, 8, move |rec, cx, g| {
        let c = any_cell(rec, cx, g);
        let k = if g.chance(1, 8) { cx.lit_to(g, wide) } else { g.range(7, wide) } as usize;
        rec.kind("wide");
        disks(rec, cx, &c, &[k]);
    });
    // far from pentagons, and wide around them
    let n = p.n(12, 400);
    p.random(n, 0, |rec, cx, g| {
        let c = loop {
            let c = any_cell(rec, cx, g);
            if c.res >= 3 && !cx.spec.is_pent(&c) {
                break c;
            }
        };
        let pd = cx.spec.pent_dist(&c);
        let k = 40 + g.below(260) as i64;
        if pd > k {
            rec.kind("far from pentagons");
            far_disk(rec, cx, &c, k, pd, Op::Disk);
        }
    });
    // very wide with pentagons inside
    let n = p.n(3, 1500);
    let wide = p.n(80, 140) as f64; // the search takes k^4: 1.5 s at 80, 36 s at 146
    p.random(n, 0, move |rec, cx, g| {
        let r = 1 + g.below(15) as usize;
        let mut c = Cell::base(*g.pick(&cx.pents()));
        for _ in 0..r {
            c = c.child(0);
        }
        let k = (32.0 * (wide / 32.0).powf(g.f())) as u64;
        let mut steps = g.below(k + k / 4);
        while steps > 0 {
            let d = 1 + g.below(6) as u8;
            for _ in 0..(1 + g.below(steps)) {
                steps -= 1;
                if let Mv::Ok(x, _) = cx.spec.mv(&c, d) {
                    c = x;
                }
            }
        }
        rec.kind("very wide, near a pentagon");
        // TLC takes minutes for one of these, so it sees those that are suspicious
        let every = std::mem::take(&mut rec.every);
        disks(rec, cx, &c, &[k as usize]);
        rec.every = every;
    });
    // the whole globe and beyond
    for r in 0..=2i64 {
        p.once(move |rec, cx| {
            rec.every = 0;
            let mut g = Rng::new(7, r as u64);
            for _ in 0..(12 >> r) {
                let c = cx.cell(&mut g, r as usize).0;
                rec.kind("whole globe");
                disks(rec, cx, &c, &[10, 30, 60][..(r as usize + 1)]);
            }
        });
    }
    p.once(|rec, cx| {
        rec.every = 3;
        for k in 0..2000 {
            rec.go(cx, Call::wa(Op::Bound, 0, k));
        }
        let edge = 13_780_509i64;
        for k in edge - 300..edge + 300 {
            rec.go(cx, Call::wa(Op::Bound, 0, k));
        }
        for i in 11..32 {
            for d in -2..=2 {
                rec.go(cx, Call::wa(Op::Bound, 0, ((1i64 << i) + d).min(u32::MAX as i64)));
            }
        }
        for k in [26753, 26754, 26755, 37837, 37838, 46340, 46341, 65535, 65536] {
            rec.go(cx, Call::wa(Op::Bound, 0, k));
        }
        rec.kind("bound");
    });
    let n = p.n(100_000, 2_000_000);
    p.random(n, 300, |rec, cx, g| {
        rec.kind("bound");
        let k = if g.chance(1, 4) { cx.lit_to(g, u32::MAX as i64) as u64 } else { (g.next() >> 32) >> g.below(32) };
        rec.go(cx, Call::wa(Op::Bound, 0, k as i64));
    });
}

// ------------------------------------------------------------------- C11 --
fn fast(rec: &mut Rec, cx: &Cx, c: &Cell, ks: &[usize]) {
    let top = *ks.iter().max().unwrap();
    let ball = cx.ball(c, top);
    for k in ks {
        let n = ball.partition_point(|x| x.1 as usize <= *k);
        let call_ = Call::wa(Op::FastDisk, c.word(), *k as i64);
        let o = tried(&call_);
        let good = cx.fast_disk_ok(&ball[..n], &o);
        rec.kind(if matches!(o, Out::Ok(_)) { "disk granted" } else { "disk refused" });
        heavy(rec, *k, |rec| rec.note(&call_, o, good));
        let call_ = Call::wa(Op::FastRing, c.word(), *k as i64);
        let o = tried(&call_);
        let good = if *k == 0 { o == Out::Ok(Val::Words(vec![c.word()])) } else { cx.fast_ring_ok(&ball[..n], *k as u32, &o) };
        rec.kind(if matches!(o, Out::Ok(_)) { "ring granted" } else { "ring refused" });
        heavy(rec, *k, |rec| rec.note(&call_, o, good));
    }
}
/// the ring by walking out and around; no pentagon is within k
fn walk_ring(cx: &Cx, c: &Cell, k: i64) -> Vec<u64> {
    let (mut e, mut n) = (*c, 0);
    let go = |e: &mut Cell, n: &mut i64, d: u8| {
        if let Some((x, m)) = cx.step(e, *n, d) {
            *e = x;
            *n = m;
        }
    };
    for _ in 0..k {
        go(&mut e, &mut n, 4);
    }
    let mut v = vec![];
    for d in SIDES {
        for _ in 0..k {
            v.push(e.word());
            go(&mut e, &mut n, d);
        }
    }
    v
}
const SIDES: [u8; 6] = [2, 3, 1, 5, 4, 6];
/// a ring far from pentagons: granted only if the nearest is farther, and then
/// every cell that the walk around meets
fn far_ring(rec: &mut Rec, cx: &Cx, c: &Cell, k: i64, pd: i64) {
    let call_ = Call::wa(Op::FarRing, c.word(), k);
    let o = tried(&call_);
    let good = cx.accept(&call_, &o);
    match o {
        Out::Ok(Val::Words(v)) => {
            rec.note(&call_, Out::Ok(Val::Unit), good);
            if pd > k {
                let have = v.iter().map(|w| (*w, k as u32)).collect();
                against_walk(rec, cx, c, k..k + 1, v.len(), &have, false, k <= 120 && rec.runs.is_empty());
            }
        }
        o => rec.note(&call_, o, good),
    }
}
/// the same for a disk, ring by ring
fn far_disk(rec: &mut Rec, cx: &Cx, c: &Cell, k: i64, pd: i64, op: Op) {
    let call_ = Call::wa(op, c.word(), k);
    let o = tried(&call_);
    match o {
        Out::Ok(Val::Pairs(v)) => {
            let good = cx.accept(&Call::wa(Op::FarDisk, c.word(), k), &Out::Ok(Val::Unit));
            if op == Op::FarDisk {
                rec.note(&call_, Out::Ok(Val::Unit), good);
            } else {
                rec.note(&call_, Out::Ok(Val::Unit), true);
                rec.sample.pop_if(|x| x.0.op == op);
            }
            if pd > k {
                let have = v.iter().cloned().collect();
                let sorted = op != Op::FarDisk || v.windows(2).all(|p| p[0].1 <= p[1].1);
                let n = if sorted { v.len() } else { 0 };
                against_walk(rec, cx, c, 0..k + 1, n, &have, true, false);
            }
        }
        o => {
            let good = op == Op::FarDisk && cx.accept(&call_, &o);
            rec.note(&call_, o, good)
        }
    }
}
/// compares with the rings walked; the whole walk of one ring goes to TLC if
/// `keep`, or the walk to the first cell missing
fn against_walk(
    rec: &mut Rec,
    cx: &Cx,
    c: &Cell,
    rings: std::ops::Range<i64>,
    n: usize,
    have: &std::collections::HashMap<u64, u32>,
    disk: bool,
    keep: bool,
) {
    let k = rings.end - 1;
    let total = if disk { 3 * k * (k + 1) + 1 } else { 6 * k };
    let mut run = vec![(Call::new(Op::Walk, c.word(), 0, 0, 0, 0), Out::Ok(Val::Unit))];
    for x in [n, have.len()] {
        run.push((Call::wa(Op::Len, disk as u64, k), Out::Ok(Val::Int(x as i64))));
    }
    let mut good = n as i64 == total && have.len() as i64 == total;
    for j in rings {
        let ring = if j == 0 { vec![c.word()] } else { walk_ring(cx, c, j) };
        let lack = ring.iter().position(|w| have.get(w) != Some(&(j as u32)));
        let upto = match lack {
            Some(i) => i,
            None if keep => ring.len() - 1,
            None => continue,
        };
        good &= lack.is_none();
        for i in 0..(j + upto as i64) + 1 {
            if i >= j {
                let w = ring[(i - j) as usize];
                run.push((Call::w(Op::At, w), Out::Ok(Val::Bool(have.get(&w) == Some(&(j as u32))))));
            }
            let d = if i < j { 4 } else { SIDES[((i - j) / j.max(1)) as usize] };
            run.push((Call::wa(Op::Go, 0, d as i64), Out::Ok(Val::Unit)));
        }
        run.pop();
        break;
    }
    if !good {
        rec.nsus += 1;
        rec.bad_runs = true;
    }
    if keep || (!good && rec.runs.len() < 3) {
        rec.runs.push(run);
    }
}
fn c11(p: &mut Plan) {
    // every cell, every radius up to the distance between pentagons
    for r in 0..=2usize {
        let top = if r == 2 { p.n(16, 28) } else { spacing(r) as usize };
        p.exhaustive(r, [7, 97, 1201][r], move |rec, cx, c| {
            let ks: Vec<usize> = (0..=top).collect();
            fast(rec, cx, c, &ks);
        });
    }
    // around the pentagons
    let n = p.n(6, 12);
    for b in cx_of().pents() {
        for r in [3usize, 4, 5, 8, 11, 14, 15] {
            p.jobs.push(Box::new(move |rec| {
                rec.every = 211;
                let cx = cx_of();
                let mut c = Cell::base(b);
                for _ in 0..r {
                    c = c.child(0);
                }
                for (e, d) in cx.ball(&c, n) {
                    rec.kind("pentagon area, every cell");
                    let ks: Vec<usize> = (0..=(d as usize + 2)).collect();
                    fast(rec, cx, &e, &ks);
                }
            }));
        }
    }
    let n = p.n(40_000, 600_000);
    p.random(n, 500, |rec, cx, g| {
        let c = any_cell(rec, cx, g);
        let k = g.below(8) as usize;
        fast(rec, cx, &c, &[k]);
    });
    let n = p.n(1500, 40_000);
    let wide = p.n(40, 120) as i64;
    p.random(n, 6, move |rec, cx, g| {
        let c = any_cell(rec, cx, g);
        let k = if g.chance(1, 8) { cx.lit_to(g, wide) } else { g.range(8, wide) } as usize;
        rec.kind("wide");
        fast(rec, cx, &c, &[k]);
    });
    // far from pentagons and up to the nearest one: judged by walking
    let n = p.n(30, 3000);
    p.random(n, 6, |rec, cx, g| {
        let c = loop {
            let c = any_cell(rec, cx, g);
            if c.res >= 2 && !cx.spec.is_pent(&c) {
                break c;
            }
        };
        let pd = cx.spec.pent_dist(&c);
        let most = 20_000i64;
        let k = if pd <= most && g.chance(1, 2) {
            (pd + g.range(-2, 2)).max(1)
        } else {
            let t = pd.min(most) as f64;
            (40f64 * (t * 1.2 / 40.0).max(1.0).powf(g.f())) as i64
        };
        rec.kind("far ring");
        far_ring(rec, cx, &c, k, pd);
        if g.chance(1, 3) {
            let k = k.min(40 + g.below(400) as i64);
            rec.kind("far disk");
            far_disk(rec, cx, &c, k, pd, Op::FarDisk);
        }
    });
    // rings wider than pentagons are apart
    let n = p.n(3000, 60_000);
    p.random(n, 200, |rec, cx, g| {
        let c = any_cell(rec, cx, g);
        let s = spacing(c.res as usize);
        let k = match g.below(5) {
            4 => cx.lit_to(g, u32::MAX as i64).max(s),
            0 => s,
            1 => s + g.below(100) as i64,
            2 => u32::MAX as i64 - g.below(3) as i64,
            _ => g.range(s, u32::MAX as i64),
        };
        rec.kind("wider than pentagons are apart");
        rec.go(cx, Call::wa(Op::WideRing, c.word(), k));
        // and disks that meet a pentagon soon
        let e = if c.res > 4 && g.chance(3, 4) { cx.near_pent(g, c.res as usize) } else { c };
        if e.res >= 2 && cx.spec.pent_dist(&e) <= 60 {
            rec.kind("disk of enormous radius");
            rec.go(cx, Call::wa(Op::FarDisk, e.word(), k));
        }
    });
}

// ------------------------------------------------------------------- C12 --
fn edge(rec: &mut Rec, cx: &Cx, c: &Cell, e: &Cell) {
    let o = rec.go(cx, Call::wz(Op::Edge, c.word(), e.word()));
    if let Out::Ok(Val::Word(w)) = o {
        for op in [Op::EdgeValid, Op::EdgeOrigin, Op::EdgeDest, Op::EdgeCells] {
            rec.go(cx, Call::w(op, w));
        }
    }
}
fn c12(p: &mut Plan) {
    for r in 0..=p.n(4, 5) {
        let every = [5, 41, 307, 2003, 14009, 99991][r];
        p.exhaustive(r, every, |rec, cx, c| {
            for e in cx.spec.neighbors(c) {
                edge(rec, cx, c, &e);
            }
        });
    }
    for r in 0..=p.n(1, 2) {
        // not adjacent: itself, and everything two steps away
        p.exhaustive(r, [31, 211, 1999][r], |rec, cx, c| {
            for (e, d) in cx.ball(c, 3) {
                if d != 1 {
                    edge(rec, cx, c, &e);
                }
            }
            if c.res > 0 {
                edge(rec, cx, c, &c.parent());
            }
            edge(rec, cx, c, &c.child(0));
            edge(rec, cx, &c.child(0), c);
        });
    }
    p.once(|rec, cx| {
        // every pair of base cells
        rec.every = 97;
        for b in 0..122 {
            for d in 0..122 {
                rec.kind("every pair of base cells");
                edge(rec, cx, &Cell::base(b), &Cell::base(d));
            }
        }
    });
    let n = p.n(300_000, 10_000_000);
    p.random(n, 1500, |rec, cx, g| {
        let c = any_cell(rec, cx, g);
        let e = other(cx, g, &c);
        edge(rec, cx, &c, &e);
        if g.chance(1, 4) {
            // of another resolution: a neighbour's parent or child, a relative
            let n = other(cx, g, &c);
            let e = match g.below(3) {
                0 if n.res > 0 => n.parent(),
                1 if n.res < 15 => n.child(g.below(7) as u8),
                _ => any_cell(rec, cx, g),
            };
            if cx.spec.is_cell(&e) {
                edge(rec, cx, &c, &e);
                edge(rec, cx, &e, &c);
            }
        }
    });
}

// ------------------------------------------------------------------- C13 --
fn c13(p: &mut Plan) {
    for r in 0..=p.n(4, 5) {
        let every = [1, 11, 79, 499, 3499, 24989][r];
        p.exhaustive(r, every, |rec, cx, c| {
            rec.go(cx, Call::w(Op::Edges, c.word()));
            let mut f = fields(c.word());
            for mode in [0, 1, 2, 3] {
                for rsv in 0..8 {
                    f.mode = mode;
                    f.rsv = rsv;
                    rec.go(cx, Call::w(Op::EdgeValid, unfields(&f)));
                }
            }
        });
    }
    let n = p.n(1_000_000, 30_000_000);
    p.random(n, 3000, |rec, cx, g| {
        let w = if g.chance(1, 3) {
            rec.kind("disturbed word");
            cx.word(g)
        } else {
            let c = any_cell(rec, cx, g);
            let mut f = fields(c.word());
            f.mode = 2;
            f.rsv = g.below(8) as u8;
            match g.below(8) {
                0 => f.hb = 1,
                1 => f.bc = g.below(128) as u8,
                2 => f.ds[g.below(15) as usize] = g.below(8) as u8,
                3 => f.res = g.below(16) as u8,
                4 => f.mode = g.below(16) as u8,
                _ => {}
            }
            unfields(&f)
        };
        rec.go(cx, Call::w(Op::EdgeValid, w));
    });
    let n = p.n(300_000, 10_000_000);
    p.random(n, 2000, |rec, cx, g| {
        let c = any_cell(rec, cx, g);
        rec.go(cx, Call::w(Op::Edges, c.word()));
    });
    let n = p.n(200, 20_000);
    p.random(n, 8, |rec, cx, g| {
        let c = any_cell(rec, cx, g);
        let mut f = fields(c.word());
        f.mode = 2;
        f.rsv = 1 + g.below(6) as u8;
        for w in deviations(unfields(&f)) {
            rec.go(cx, Call::w(Op::EdgeValid, w));
        }
    });
}

// ------------------------------------------------------------------- C14 --
fn c14(p: &mut Plan) {
    p.once(|rec, cx| {
        rec.go(cx, Call::w(Op::Res0, 0));
        rec.go(cx, Call::w(Op::Res0Count, 0));
        for b in 0..122 {
            let mut c = Cell::base(b);
            for r in 0..16 {
                if r > 0 {
                    c = c.child(0);
                }
                rec.kind("all-zero descendants");
                rec.go(cx, Call::w(Op::Pent, c.word()));
                // the others below it
                for i in 1..=r {
                    for d in 1..7 {
                        let mut e = c;
                        e.ds[i - 1] = d;
                        if cx.spec.is_cell(&e) {
                            rec.every = 13;
                            rec.kind("one digit not zero");
                            rec.go(cx, Call::w(Op::Pent, e.word()));
                        }
                    }
                }
                rec.every = 1;
            }
        }
    });
    for r in 0..=p.n(5, 7) {
        let every = [1, 9, 61, 421, 3001, 20011, 139999, 979999][r];
        p.exhaustive(r, every, move |rec, cx, c| {
            rec.go(cx, Call::w(Op::Pent, c.word()));
            if r <= 3 {
                rec.go(cx, Call::wa(Op::Around, c.word(), cx.spec.is_pent(c) as i64));
            }
        });
    }
    let n = p.n(1_000_000, 30_000_000);
    p.random(n, 2500, |rec, cx, g| {
        let c = any_cell(rec, cx, g);
        rec.go(cx, Call::w(Op::Pent, c.word()));
    });
    let n = p.n(50_000, 1_000_000);
    p.random(n, 500, |rec, cx, g| {
        let r = g.below(16) as usize;
        let c = cx.near_pent(g, r);
        rec.kind(KINDS[2]);
        rec.go(cx, Call::wa(Op::Around, c.word(), cx.spec.is_pent(&c) as i64));
    });
}

// ------------------------------------------------------------------- C15 --
fn c15(p: &mut Plan) {
    let n = p.n(60_000, 2_000_000);
    p.random(n, 60, |rec, cx, g| {
        let w = match g.below(4) {
            0 => g.next(),
            1 => 0,
            2 => !0,
            _ => cx.word(g),
        };
        rec.kind("word");
        for f in [0, 1, 2, 3, 4, 6] {
            rec.go(cx, Call::new(Op::Get, w, 0, f, 0, 0));
        }
        for r in 1..16 {
            rec.go(cx, Call::new(Op::Get, w, 0, 5, r, 0));
            rec.go(cx, Call::new(Op::Put, w, 0, 5, r, g.below(8) as i64));
        }
        for (f, m) in [(0, 2), (1, 16), (2, 8), (3, 16), (4, 128)] {
            rec.go(cx, Call::new(Op::Put, w, 0, f, 0, g.below(m) as i64));
        }
    });
    p.once(|rec, cx| {
        rec.every = 89;
        rec.exhaustive = true;
        for w in [0u64, !0, 0x5555_5555_5555_5555, 0xAAAA_AAAA_AAAA_AAAA] {
            for (f, m) in [(0, 2), (1, 16), (2, 8), (3, 16), (4, 128)] {
                for x in 0..m {
                    rec.kind("every field and value");
                    rec.go(cx, Call::new(Op::Put, w, 0, f, 0, x));
                }
            }
            for r in 1..16 {
                for x in 0..8 {
                    rec.go(cx, Call::new(Op::Put, w, 0, 5, r, x));
                }
            }
        }
        // each bit alone
        for i in 0..64 {
            for w in [1u64 << i, !(1u64 << i)] {
                for f in [0, 1, 2, 3, 4, 6] {
                    rec.go(cx, Call::new(Op::Get, w, 0, f, 0, 0));
                }
                for r in 1..16 {
                    rec.go(cx, Call::new(Op::Get, w, 0, 5, r, 0));
                }
            }
        }
    });
    p.once(|rec, cx| {
        rec.every = 17;
        rec.exhaustive = true;
        for res in 0..16 {
            for b in 0..122 {
                for d in 0..7 {
                    rec.kind("setH3Index, every argument");
                    let w = if (res + b + d) % 2 == 0 { 0 } else { !0 };
                    rec.go(cx, Call::new(Op::Fresh, w, 0, res, b, d));
                }
            }
        }
    });
}

// ------------------------------------------------------------------- C16 --
fn c16(p: &mut Plan) {
    let n = p.n(400_000, 15_000_000);
    p.random(n, 2500, |rec, cx, g| {
        let w = cx.word(g);
        let which = g.below(ANY.len() as u64) as i64;
        rec.kind(ANY[which as usize]);
        rec.go(cx, any_call(cx, g, w, which));
    });
    // base cells that do not exist, and pentagons' deleted subsequences, with every function
    let n = p.n(6_000, 200_000);
    p.random(n, 60, |rec, cx, g| {
        let r = g.below(16) as usize;
        let (c, _) = cx.cell(g, r);
        let mut f = fields(c.word());
        match g.below(5) {
            0 => f.bc = 122 + g.below(6) as u8,
            1 => {
                f.bc = *g.pick(&cx.pents());
                let z = g.below(r.max(1) as u64) as usize;
                for i in 0..z {
                    f.ds[i] = 0;
                }
                f.ds[z] = 1;
            }
            2 => {
                for i in 0..15 {
                    if g.chance(1, 3) {
                        f.ds[i] = 7
                    }
                }
            }
            3 => f.res = g.below(16) as u8,
            _ => {
                f.mode = g.below(16) as u8;
                f.rsv = g.below(8) as u8
            }
        }
        if g.chance(1, 4) {
            f.mode = 2;
            f.rsv = g.below(8) as u8;
        }
        let w = unfields(&f);
        for which in 0..ANY.len() as i64 {
            rec.kind("malformed, every function");
            rec.go(cx, any_call(cx, g, w, which));
        }
        // each direction
        for d in 0..7 {
            rec.go(cx, Call::new(Op::Any, w, 0, 0, d, g.below(6) as i64));
        }
    });
    // wide rings around anything
    let n = p.n(3_000, 60_000);
    let ring = ANY.iter().position(|x| *x == "fastring").unwrap() as i64;
    p.random(n, 60, move |rec, cx, g| {
        let w = cx.word(g);
        // distances from which on pentagons are always near
        let s = spacing(fields(w).res as usize);
        let k = if g.chance(1, 2) { u32::MAX as i64 - g.below(2) as i64 } else { g.range(s, u32::MAX as i64) };
        rec.kind("wide ring");
        rec.go(cx, Call::new(Op::Any, w, 0, ring, k, 0));
    });
}
fn any_call(cx: &Cx, g: &mut Rng, w: u64, which: i64) -> Call {
    let z = match g.below(3) {
        0 => cx.word(g),
        1 => w ^ (g.below(7) << (3 * g.below(15))),
        _ => g.next(),
    };
    let res = fields(w).res as i64;
    let wild = *g.pick(&[i32::MIN as i64, -1, 16, 17, i32::MAX as i64, 0, 15]);
    let (b, c) = match ANY[which as usize] {
        "neighbor" => (g.below(7) as i64, g.below(6) as i64),
        "size" | "iter" => (if g.chance(1, 3) { wild } else { g.range(-2, 18) }, g.below(400) as i64),
        "childpos" => (
            if g.chance(1, 3) { wild } else { g.range(-2, 18) },
            match g.below(4) {
                0 => *g.pick(&[i64::MIN, -1, i64::MAX, 1 << 31, 1 << 32]),
                1 => g.next() as i64,
                _ => (g.next() >> (20 + g.below(43))) as i64,
            },
        ),
        // no more than a few levels: the result is a list
        "children" => (
            if g.chance(1, 4) {
                *g.pick(&[i32::MIN as i64, -1, 16, 17, i32::MAX as i64])
            } else {
                (res + g.range(-3, 4)).max(-2)
            },
            0,
        ),
        "disk" | "fastdisk" | "fastring" => (g.below(7) as i64, 0),
        _ => (0, 0),
    };
    Call::new(Op::Any, w, z, which, b, c)
}

// ------------------------------------------------------------------- C17 --
fn c17(p: &mut Plan) {
    for r in 0..=p.n(4, 5) {
        let every = [11, 97, 701, 4999, 34981, 249989][r];
        p.exhaustive(r, every, |rec, cx, c| {
            let p = cx.spec.is_pent(c);
            for n in 0..6 {
                for d in 1..7u8 {
                    if !p || cx.spec.rot[n][d as usize] != 1 {
                        rec.go(cx, Call::new(Op::Heading, c.word(), 0, d as i64, n as i64, 0));
                    }
                }
            }
        });
    }
    let n = p.n(600_000, 20_000_000);
    p.random(n, 2500, |rec, cx, g| {
        let c = any_cell(rec, cx, g);
        let d = 1 + g.below(6) as i64;
        let n = g.below(6) as i64;
        if !cx.spec.is_pent(&c) {
            rec.go(cx, Call::new(Op::Heading, c.word(), 0, d, n, 0));
        }
        let r = c.res as usize;
        let (c, d) = cx.carry(g, r);
        if !cx.spec.is_pent(&c) {
            rec.kind(KINDS[4]);
            rec.go(cx, Call::new(Op::Heading, c.word(), 0, d as i64, 0, 0));
        }
    });
    // walks through hexagons, out and back
    let n = p.n(4000, 200_000);
    let keep = p.n(20, 600);
    let each = (n / keep) as u64;
    p.random(n, 1, move |rec, cx, g| {
        let c = loop {
            let c = any_cell(rec, cx, g);
            if !cx.spec.is_pent(&c) {
                break c;
            }
        };
        let straight = g.chance(1, 2);
        let len = 1 + g.below(25) as usize;
        let (mut w, mut n) = (c.word(), g.below(6) as i64);
        let n0 = n;
        let mut run = vec![(Call::new(Op::Walk, w, 0, n, 0, 0), Out::Ok(Val::Unit))];
        let mut path = vec![];
        let mut good = true;
        let mut d = 1 + g.below(6) as u8;
        let step = |w: &mut u64, n: &mut i64, d: u8, run: &mut Vec<(Call, Out)>| -> bool {
            let k = Call::new(Op::Step, *w, 0, d as i64, *n, 0);
            let o = tried(&k);
            let h = Call::new(Op::Heading, *w, 0, d as i64, *n, 0);
            let ok = cx.accept(&h, &o);
            run.push((k, o.clone()));
            if let Out::Ok(Val::WordRot(x, m)) = o {
                *w = x;
                *n = m;
            }
            ok
        };
        for _ in 0..len {
            if !straight {
                d = 1 + g.below(6) as u8;
            }
            let here = cx.spec.cell_of(w).unwrap();
            // not into a pentagon
            let mut tries = 0;
            while match cx.step(&here, n, d) {
                Some((e, _)) => cx.spec.is_pent(&e),
                None => true,
            } && tries < 6
            {
                d = d % 6 + 1;
                tries += 1;
            }
            good &= step(&mut w, &mut n, d, &mut run);
            if !good {
                break;
            }
            path.push(d);
        }
        if good {
            for d in path.iter().rev() {
                let back = cx.spec.rot[3][*d as usize];
                good &= step(&mut w, &mut n, back, &mut run);
                if !good {
                    break;
                }
            }
        }
        good &= w == c.word() && n == n0;
        *rec.counts.entry("step").or_insert(0) += run.len() as u64 - 1;
        rec.kind(if straight { "straight walk and back" } else { "random walk and back" });
        if !good {
            rec.nsus += 1;
            rec.bad_runs = true;
            if rec.runs.len() < 20 {
                rec.runs.push(run);
            }
        } else {
            rec.walks += 1;
            if rec.walks % each == 1 % each {
                rec.runs.push(run);
            }
        }
    });
}

// ------------------------------------------------------------------- C18 --
/// nothing, or a little of any size
fn off_tick(g: &mut Rng) -> f64 {
    if g.chance(1, 2) {
        0.0
    } else {
        (g.f() - 0.5) * 10f64.powf(-6.0 - g.f() * 10.0)
    }
}
fn c18(p: &mut Plan) {
    let n = p.n(500_000, 10_000_000);
    p.random(n, 2500, |rec, cx, g| {
        let t = 20_000_000i64;
        let x = match g.below(4) {
            // within a hundred turns
            0 => g.range(-100 * t, 100 * t),
            1 => g.range(-t, t),
            2 => g.range(-200, 200) * (t / 2) + g.range(-20, 20),
            _ => g.range(-3 * t, 3 * t),
        };
        let x = x.clamp(-100 * t, 100 * t);
        rec.kind("longitude");
        let e = off_tick(g);
        rec.go(cx, Call::w(Op::Lng, (lng_of_ticks(x) + e).to_bits()));
        let l = cx.lit_angle(g);
        if l.abs() < 600.0 {
            rec.go(cx, Call::w(Op::Lng, l.to_bits()));
            rec.go(cx, Call::w(Op::Lat, l.abs().to_bits()));
        }
        let y = match g.below(3) {
            0 => x.abs(),
            1 => g.range(-t / 4, t / 4),
            _ => (g.range(0, 20) * (t / 4) + g.range(-20, 20)).abs(),
        };
        rec.kind("latitude");
        rec.go(cx, Call::w(Op::Lat, (lng_of_ticks(y) + e.abs()).to_bits()));
        let (a, b) = if g.chance(1, 2) {
            (g.range(-90_000, 90_000), g.range(-180_000, 180_000))
        } else {
            (g.range(-720_000, 720_000), g.range(-720_000, 720_000))
        };
        rec.kind("degrees");
        rec.go(cx, Call::new(Op::Degs, 0, 0, a, b, 0));
    });
    p.random(n, 2500, |rec, cx, g| {
        rec.kind("comparison");
        // multiples of 2^-20, so that differences are exact
        let t = match g.below(3) {
            0 => g.range(0, 20),
            1 => 1 << g.below(20),
            _ => g.range(1, 1 << 20),
        };
        let delta = |g: &mut Rng| -> i64 {
            let s = if g.chance(1, 2) { 1 } else { -1 };
            match g.below(5) {
                0 => 0,
                1 => s * (t - 1),
                2 => s * t,
                3 => s * (t + 1),
                _ => g.range(-2 * t - 1, 2 * t + 1),
            }
        };
        let p1 = g.range(-3_000_000, 3_000_000);
        let p2 = g.range(-6_000_000, 6_000_000);
        let (d1, d2) = (delta(g), delta(g));
        let a = pack2(p1 as i32, p2 as i32);
        let b = pack2((p1 + d1) as i32, (p2 + d2) as i32);
        rec.go(cx, Call::new(Op::Almost, 0, 0, a, b, t));
        // any threshold; differences of about a turn or half of it; poles
        let t = match g.below(6) {
            0 => -g.range(1, 1 << 20),
            1 => 0,
            2 => g.range(1 << 20, 1 << 30),
            3 => g.range(1, 20),
            _ => g.range(1, 1 << 21),
        };
        let turn = 6_588_397; // in 2^-20 radians
        let p1 = *g.pick(&[0, turn / 4, -turn / 4, turn / 4 - 1, turn / 2, 1]) + g.range(-2, 2);
        let p2 = *g.pick(&[0, turn / 2, -turn / 2, turn, -turn, turn / 4]) + g.range(-2, 2);
        let far = |g: &mut Rng| -> i64 {
            let s = if g.chance(1, 2) { 1 } else { -1 };
            s * match g.below(6) {
                0 => turn + g.range(-3, 3),
                1 => turn / 2 + g.range(-3, 3),
                2 => (turn + g.range(-t.abs() - 2, t.abs() + 2)).clamp(-(1 << 30), 1 << 30),
                3 => t.abs() + g.range(-1, 1),
                4 => g.range(0, 3),
                _ => g.range(0, 1 << 30),
            }
        };
        let (d1, d2) = (if g.chance(2, 3) { g.range(-2, 2) } else { far(g) }, far(g));
        rec.go(cx, Call::new(Op::Almost, 0, 0, pack2(p1 as i32, p2 as i32), pack2((p1 + d1) as i32, (p2 + d2) as i32), t));
        // points anywhere, the special ones too, not near the edge of the threshold
        let some = |g: &mut Rng| -> f64 {
            let h = std::f64::consts::FRAC_PI_2;
            match g.below(4) {
                0 => g.range(-4, 4) as f64 * h,
                1 => g.range(-90, 90) as f64 * h / 90.0,
                2 => g.range(-12, 12) as f64,
                _ => (g.f() - 0.5) * 8.0 * h,
            }
        };
        let by = |g: &mut Rng, x: f64| -> f64 {
            let h = std::f64::consts::FRAC_PI_2;
            let s = if g.chance(1, 2) { 1.0 } else { -1.0 };
            match g.below(8) {
                0 => x,
                1 => -x,
                2 => x + s * 4.0 * h,
                3 => x + s * 2.0 * h,
                4 => x + s * crate::call::STD_EPS * g.f() * 0.8,
                5 => x + s * crate::call::STD_EPS * (1.3 + 100.0 * g.f()),
                6 => x + s * (4.0 * h - crate::call::STD_EPS * g.f() * 2.0),
                _ => some(g),
            }
        };
        let (x1, x2) = (some(g), some(g));
        let (y1, y2) = (if g.chance(1, 2) { x1 } else { by(g, x1) }, by(g, x2));
        // not where rounding decides
        if [x1 - y1, x2 - y2].iter().all(|d| !(7..9).contains(&crate::call::eighths(*d))) {
            rec.go(cx, Call::new(Op::AlmostReal, x1.to_bits(), x2.to_bits(), y1.to_bits() as i64, y2.to_bits() as i64, 0));
        }
        // near the origin, in eighths of the standard threshold, away from its edge
        let q = |g: &mut Rng| *g.pick(&[0i64, 1, 4, 7, 9, 12, 16, 100, 1000000, -1, -4, -7, -9, -12, -16, -100, -1000000]);
        let (p1, p2) = (g.range(-10, 10), g.range(-10, 10));
        let (d1, d2) = (q(g), q(g));
        let a = pack2(p1 as i32, p2 as i32);
        let b = pack2((p1 + d1) as i32, (p2 + d2) as i32);
        rec.go(cx, Call::new(Op::AlmostStd, 0, 0, a, b, 0));
    });
}

// ------------------------------------------------------------------- C19 --
/// the address of the cell, and the names of all its addresses
fn addresses(rec: &mut Rec, cx: &Cx, c: &Cell) {
    let r = c.res as usize;
    rec.go(cx, Call::w(Op::Address, c.word()));
    let (f, p) = cx.spec.homes[c.bc as usize];
    rec.go(cx, Call::new(Op::Unfold, c.word(), 0, f as i64, pack2(p.0 as i32, p.1 as i32), 0));
    for f in 0..20usize {
        for q in cx.images(c, f) {
            let p = from_class2(r, q);
            if cx.near_face(r, p) {
                rec.go(cx, Call::new(Op::NameOf, 0, 0, f as i64, pack2(p.0 as i32, p.1 as i32), r as i64));
            }
        }
    }
}
fn c19(p: &mut Plan) {
    for r in 0..=p.n(4, 6) {
        let every = [1, 7, 41, 293, 2003, 14009, 98011][r];
        p.exhaustive(r, every, |rec, cx, c| addresses(rec, cx, c));
    }
    let n = p.n(200_000, 6_000_000);
    p.random(n, 2000, |rec, cx, g| {
        let c = any_cell(rec, cx, g);
        addresses(rec, cx, &c);
        let f = g.below(20) as i64;
        rec.go(cx, Call::new(Op::Unfold, c.word(), 0, f, pack2(g.range(-2, 2) as i32, g.range(-2, 2) as i32), 0));
    });
    // any lattice point of a face's plane: on it, beside it, far away
    p.random(n, 1500, |rec, cx, g| {
        let r = g.below(16) as usize;
        let f = g.below(20) as i64;
        let t = |g: &mut Rng| (g.f() * 2.0 - 1.0) * if g.chance(1, 8) { 40.0 } else { 2.2 };
        let s = scale_of(r) as f64;
        let q = from_class2(r, ((t(g) * s) as i64, (t(g) * s) as i64));
        let lim = 1 << 29;
        let q = (q.0.clamp(-lim, lim), q.1.clamp(-lim, lim));
        rec.kind("lattice point of a face's plane");
        rec.go(cx, Call::new(Op::NameOf, 0, 0, f, pack2(q.0 as i32, q.1 as i32), r as i64));
    });
}

// ------------------------------------------------------------------- C20 --
fn c20(p: &mut Plan) {
    p.once(|rec, cx| {
        rec.exhaustive = true;
        for f in 0..20 {
            for t in 0..27 {
                rec.kind("face and coordinates");
                rec.go(cx, Call::new(Op::BaseAt, 0, 0, f, t, 0));
            }
        }
        for b in 0..122 {
            for d in 0..7 {
                rec.kind("base cell and direction");
                rec.go(cx, Call::new(Op::BaseNb, 0, 0, b, d, 0));
            }
        }
        for b in cx.pents() {
            for f in 0..20 {
                rec.kind("pentagon base cell and face");
                rec.go(cx, Call::new(Op::CwOff, 0, 0, b as i64, f, 0));
            }
        }
        for b in (-260..400).chain([i32::MIN as i64, i32::MAX as i64, 1 << 16, (1 << 16) + 4, -65536 + 14]) {
            rec.kind(if (0..122).contains(&b) { "base cell" } else { "no base cell" });
            rec.go(cx, Call::new(Op::BaseIs, 0, 0, b, 0, 0));
        }
    });
}

// ------------------------------------------------------------------- C21 --
fn turns(rec: &mut Rec, cx: &Cx, c: &Cell) {
    let pent = cx.spec.pent[c.bc as usize];
    for a in if pent { 2..4 } else { 0..2 } {
        rec.go(cx, Call::wa(Op::Turn, c.word(), a));
    }
}
fn c21(p: &mut Plan) {
    for r in 0..=p.n(4, 6) {
        let every = [1, 3, 23, 151, 997, 7001, 49999][r];
        p.exhaustive(r, every, |rec, cx, c| turns(rec, cx, c));
    }
    let n = p.n(400_000, 10_000_000);
    p.random(n, 3000, |rec, cx, g| {
        let mut c = any_cell(rec, cx, g);
        turns(rec, cx, &c);
        // zeros before and between
        for i in 0..c.res as usize {
            if g.chance(1, 3) {
                c.ds[i] = 0;
            }
        }
        if cx.spec.is_cell(&c) {
            turns(rec, cx, &c);
        }
    });
}

// ------------------------------------------------------------------- C22 --
/// a place that is not within a metre or so of a pole
fn off_pole(cx: &Cx, g: &mut Rng, min: f64) -> (f64, f64) {
    loop {
        let q = match g.below(3) {
            0 => cx.special_place(g),
            _ => ((2.0 * g.f() - 1.0).asin(), (2.0 * g.f() - 1.0) * std::f64::consts::PI),
        };
        if q.0.cos() > min {
            return q;
        }
    }
}
fn c22(p: &mut Plan) {
    use crate::sphere::*;
    use std::f64::consts::PI;
    let fl = |x: f64| x.to_bits() as i64;
    let n = p.n(300_000, 10_000_000);
    p.random(n, 2000, move |rec, cx, g| {
        let (lat, lng) = off_pole(cx, g, 1e-6);
        let az = match g.below(4) {
            0 => *g.pick(&[0.0, PI, -PI, PI / 2.0, -PI / 2.0, 2.0 * PI, -2.0 * PI, 3.0 * PI]),
            1 => *g.pick(&[0.0, PI, -PI]) + (g.f() - 0.5) * 10f64.powf(-g.f() * 14.0),
            2 if g.chance(1, 2) => cx.lit_angle(g).clamp(-2.0 * PI, 2.0 * PI),
            _ => (g.f() * 2.0 - 1.0) * 2.0 * PI,
        };
        let d = match g.below(5) {
            0 => 10f64.powf(-g.f() * 12.0),
            1 => g.f() * 0.7,
            2 if g.chance(1, 2) => cx.lit_angle(g).abs().min(PI),
            2 => 0.0,
            // to a pole, or nearly
            3 => {
                let s = if az.cos() > 0.0 { 1.0 } else { -1.0 };
                (PI / 2.0 - s * lat) + if g.chance(1, 2) { 0.0 } else { (g.f() - 0.5) * 10f64.powf(-g.f() * 12.0) }
            }
            _ => g.f() * PI,
        };
        rec.kind("journey");
        rec.go(cx, Call::new(Op::Travel, lat.to_bits(), lng.to_bits(), fl(az), fl(d.abs()), 0));
    });
    p.random(n, 2000, move |rec, cx, g| {
        let a = off_pole(cx, g, 1e-6);
        let (b, kind) = match g.below(4) {
            0 => {
                // a little way off
                let v = destination(a.0, a.1, g.f() * 2.0 * PI, 10f64.powf(-g.f() * 6.0));
                (spot(v), "places close together")
            }
            1 => (off_pole(cx, g, 1e-6), "two places"),
            2 => ((off_pole(cx, g, 1e-6).0, a.1), "two places of a meridian"),
            _ => {
                let (f, q) = cx.spec.point_of(&cx.uniform(g, 3));
                let s = scale_of(3) as f64;
                (cx.geo.point(f, q.0 as f64 / s, q.1 as f64 / s), "two places")
            }
        };
        let (v, w) = (crate::geo::vec_of(a.0, a.1), crate::geo::vec_of(b.0, b.1));
        rec.kind(kind);
        if apart(v, w) > 1e-8 {
            rec.go(cx, Call::new(Op::Azimuth, a.0.to_bits(), a.1.to_bits(), fl(b.0), fl(b.1), 0));
        }
        rec.go(cx, Call::new(Op::SqDist, a.0.to_bits(), a.1.to_bits(), fl(b.0), fl(b.1), 0));
        rec.go(cx, Call::new(Op::Vec, a.0.to_bits(), a.1.to_bits(), 0, 0, 0));
    });
    p.random(n, 1500, |rec, cx, g| {
        let t = 20_000_000i64;
        let x = match g.below(3) {
            0 => g.range(-t, 2 * t - 1),
            1 => g.range(-2, 3) * (t / 2) + g.range(-20, 20),
            _ => *g.pick(&[0, t, -t, t / 2, t - 1, t + 1, -1, 1]),
        };
        rec.kind("angle");
        let y = lng_of_ticks(x) + off_tick(g);
        rec.go(cx, Call::w(Op::PosAngle, y.clamp(-2.0 * std::f64::consts::PI, 4.0 * std::f64::consts::PI * (1.0 - 1e-15)).to_bits()));
        let m = *g.pick(&[3i64, 100, 3000]);
        let (x, y) = (g.range(-m, m), g.range(-m, m));
        rec.kind("plane vector");
        rec.go(cx, Call::new(Op::Mag, 0, 0, x, y, 0));
    });
}

// ------------------------------------------------------------------- C23 --
fn c23(p: &mut Plan) {
    let n = p.n(200_000, 5_000_000);
    p.random(n, 1500, |rec, cx, g| {
        let w = match g.below(4) {
            0 => g.next(),
            1 => cx.word(g),
            _ => {
                let r = g.below(16) as usize;
                cx.cell(g, r).0.word()
            }
        };
        rec.kind("word");
        let from = 1 + g.below(15) as i64;
        let to = g.range(from, 15);
        rec.go(cx, Call::new(Op::Zero, w, 0, from, to, 0));
        if from > 1 {
            rec.go(cx, Call::new(Op::Zero, w, 0, from, g.range(0, from - 1), 0));
        }
        rec.go(cx, Call::w(Op::Lead, w));
        for r in -1..18 {
            rec.go(cx, Call::wa(Op::HasKids, w, r));
        }
        rec.go(cx, Call::wa(Op::HasKids, w, g.range(-1000, 1000)));
    });
    p.random(n, 2000, |rec, cx, g| {
        let c = any_cell(rec, cx, g);
        let r = child_res(g, &c);
        let n = if (c.res as i64..16).contains(&r) {
            count(cx.spec.is_pent(&c), (r - c.res as i64) as u32) as i64
        } else {
            7
        };
        for pos in [0, n - 1, n, n + 1, -1, g.range(0, n - 1), i64::MIN, i64::MAX, n.wrapping_add(1 << 32)] {
            rec.go(cx, Call::new(Op::PosValid, c.word(), 0, r, pos, 0));
        }
    });
    p.random(n, 2000, |rec, cx, g| {
        let c = any_cell(rec, cx, g);
        let r = c.res as i64 + g.below(16 - c.res as u64) as i64;
        let at = 1 + g.below(15) as i64;
        let w = unfields(&{
            let mut f = fields(c.word());
            f.ds[c.res as usize..r as usize].fill(0);
            f
        });
        // as many as the digits up to there can take
        let room = (1u64 << (3 * at)) - 1 - ((w & 0x1fff_ffff_ffff) >> (3 * (15 - at)));
        let n = (*g.pick(&[1u64, 1, 2, 6, 7, 8, 50, 600])).min(room);
        rec.kind("counter");
        rec.go(cx, Call::new(Op::Count, c.word(), 0, r, at, n as i64));
    });
    p.once(|rec, cx| {
        rec.exhaustive = true;
        for r in 0..17 {
            rec.kind("resolution");
            rec.go(cx, Call::wa(Op::Class3, 0, r));
        }
        for b in 0..122u8 {
            for from in 1..16 {
                for to in from - 1..16 {
                    rec.kind("range of digits");
                    let w = unfields(&Fields { hb: 0, mode: 1, rsv: 0, res: 15, bc: b, ds: [1 + b % 6; 15] });
                    rec.every = 13;
                    rec.go(cx, Call::new(Op::Zero, w, 0, from, to, 0));
                }
            }
        }
    });
}

// ------------------------------------------------------------------- C24 --
fn c24(p: &mut Plan) {
    // all threads at once on the same words: first, so that they start together
    let gate: &'static crate::clients::Gate = Box::leak(Box::new(crate::clients::Gate::new(8)));
    let n = p.n(6000, 200_000);
    for me in 0..8u64 {
        let seed = p.seed;
        p.jobs.push(Box::new(move |rec| {
            crate::clients::together(rec, cx_of(), seed, me, gate, n, 8);
        }));
    }
    // histories that the specification made up
    let mut files: Vec<std::path::PathBuf> = vec![];
    if let Ok(dirs) = std::env::var("H3_RUNS") {
        for d in dirs.split(':') {
            files.extend(std::fs::read_dir(d).into_iter().flatten().filter_map(|x| x.ok()).map(|x| x.path()));
        }
    }
    files.sort();
    let each = (files.len() / 24).max(1);
    for (i, f) in files.into_iter().enumerate() {
        p.jobs.push(Box::new(move |rec| crate::clients::follow(rec, cx_of(), &f, i % each == 0)));
    }
    let n = p.n(12_000, 600_000);
    p.random(n, 1, move |rec, cx, g| {
        let keep = g.chance(1, n as u64 / 10);
        crate::clients::alone(rec, cx, g, keep);
    });
}
