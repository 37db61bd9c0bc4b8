//! Native reading of the specification's acceptance relation, for screening.
use crate::call::*;
use crate::geo::{Geo, Query, FRAC};
use crate::mirror::*;
use std::collections::{HashMap, HashSet};

pub struct Cx {
    pub spec: Spec,
    pub geo: Geo,
    pub lits: Vec<u64>,
    pub flits: Vec<f64>,
}

fn dot2(p: P, q: P) -> i64 {
    2 * p.0 * q.0 + 2 * p.1 * q.1 - p.0 * q.1 - p.1 * q.0
}
fn near(p: P, z: P) -> bool {
    let d = sub(p, z);
    d.0.abs() <= 6 && d.1.abs() <= 6
}

pub fn is_err(o: &Out, names: &[&str]) -> bool {
    match o {
        Out::Err(e) => names.contains(&e.as_str()),
        _ => false,
    }
}
pub fn answers(o: &Out) -> bool {
    matches!(o, Out::Ok(_) | Out::Err(_))
}
fn gives_word(o: &Out, w: u64) -> bool {
    *o == Out::Ok(Val::Word(w))
}

pub fn count(pent: bool, n: u32) -> i128 {
    if pent {
        1 + 5 * ((7i128.pow(n) - 1) / 6)
    } else {
        7i128.pow(n)
    }
}

impl Cx {
    /// places of the cell's centre in the plane of face f
    pub fn images(&self, c: &Cell, f: usize) -> Vec<P> {
        let s = scale_of(c.res as usize);
        let mut reps = vec![self.spec.point_of(c)];
        let mut i = 0;
        while i < reps.len() {
            let (g, p) = reps[i];
            for e in 0..3 {
                if edge_form(e, p) == 2 * s {
                    let y = (self.spec.gluing[g][e].0, self.spec.fold_pt(g, e, p, s));
                    if !reps.contains(&y) {
                        reps.push(y);
                    }
                }
            }
            i += 1;
        }
        let mut v = vec![];
        for (g, p) in reps {
            if g == f {
                v.push(p);
            }
            for e in 0..3 {
                if self.spec.gluing[g][e].0 == f {
                    v.push(self.spec.fold_pt(g, e, p, s));
                }
            }
        }
        v
    }
    pub fn contains(&self, c: &Cell, q: &Query) -> bool {
        let r = c.res as usize;
        self.images(c, q.f).iter().any(|z| {
            near(q.p, *z) && {
                let d = sub(q.p, *z);
                let o = (FRAC * d.0 + q.x.0, FRAC * d.1 + q.x.1);
                (1..7).all(|k| {
                    let w = to_class2(r, self.spec.u[k]);
                    let norm = w.0 * w.0 - w.0 * w.1 + w.1 * w.1;
                    dot2(o, w) <= FRAC * norm + 6 * q.tol
                })
            }
        })
    }
    pub fn is_centre(&self, c: &Cell, q: &Query) -> bool {
        self.images(c, q.f).iter().any(|z| {
            near(q.p, *z) && {
                let d = sub(q.p, *z);
                let o = (FRAC * d.0 + q.x.0, FRAC * d.1 + q.x.1);
                o.0.abs() <= q.tol && o.1.abs() <= q.tol
            }
        })
    }
    pub fn coarse(&self, c: &Cell, r: usize) -> Query {
        let m = (c.res as usize + 1) / 2 - (r + 1) / 2;
        let k = 7i64.pow(m as u32);
        let l = if m > 5 { 7i64.pow(m as u32 - 5) } else { 1 };
        let part = |a: i64| (a.rem_euclid(k) / l) * FRAC / (k / l);
        let (f, p) = self.spec.point_of(c);
        Query {
            f,
            p: (p.0.div_euclid(k), p.1.div_euclid(k)),
            x: (part(p.0), part(p.1)),
            tol: 20,
            r: 0.0,
        }
    }
    pub fn ancestor(c: &Cell, r: usize) -> Cell {
        let mut a = *c;
        while a.res as usize > r {
            a = a.parent();
        }
        a
    }
    pub fn descend(&self, c: &Cell, n: usize) -> Vec<Cell> {
        let mut v = vec![*c];
        for _ in 0..n {
            v = v.iter().flat_map(|c| (0..7).map(|d| c.child(d)).collect::<Vec<_>>()).filter(|c| self.spec.is_cell(c)).collect();
        }
        v
    }
    pub fn child_at(&self, c: &Cell, n: usize, mut pos: i128) -> Cell {
        let mut pent = self.spec.is_pent(c);
        let mut k = *c;
        for i in 1..=n {
            let m = (n - i) as u32;
            if pent {
                let p = count(true, m);
                if pos < p {
                    k = k.child(0);
                    continue;
                }
                pos -= p;
                pent = false;
                k = k.child(2 + (pos / count(false, m)) as u8);
            } else {
                k = k.child((pos / count(false, m)) as u8);
            }
            pos %= count(false, m);
        }
        k
    }
    /// all cells of a resolution
    pub fn all(&self, r: usize) -> Vec<Cell> {
        (0..122u8).flat_map(|b| self.descend(&Cell::base(b), r)).collect()
    }
    pub fn ball(&self, c: &Cell, k: usize) -> Vec<(Cell, u32)> {
        let mut seen: HashSet<Cell> = HashSet::new();
        seen.insert(*c);
        let mut v = vec![(*c, 0u32)];
        let mut i = 0;
        while i < v.len() {
            let (x, d) = v[i];
            i += 1;
            if d as usize == k {
                continue;
            }
            for n in self.spec.neighbors(&x) {
                if seen.insert(n) {
                    v.push((n, d + 1));
                }
            }
        }
        v
    }
    pub fn step(&self, c: &Cell, n: i64, d: u8) -> Option<(Cell, i64)> {
        match self.spec.mv(c, self.spec.rot[n.rem_euclid(6) as usize][d as usize]) {
            Mv::Ok(e, t) => Some((e, (n + t as i64) % 6)),
            Mv::Deleted => None,
        }
    }
    pub fn is_edge_word(&self, w: u64) -> bool {
        let f = fields(w);
        if f.mode != 2 {
            return false;
        }
        match self.spec.cell_of(self.origin_word(w)) {
            None => false,
            Some(c) => f.rsv >= 1 && f.rsv <= 6 && !(f.rsv == 1 && self.spec.is_pent(&c)),
        }
    }
    pub fn origin_word(&self, w: u64) -> u64 {
        let mut f = fields(w);
        f.mode = 1;
        f.rsv = 0;
        unfields(&f)
    }
    pub fn edge_word(&self, c: &Cell, d: u8) -> u64 {
        let mut f = fields(c.word());
        f.mode = 2;
        f.rsv = d;
        unfields(&f)
    }
    fn edge_dest(&self, w: u64) -> u64 {
        let c = self.spec.cell_of(self.origin_word(w)).unwrap();
        match self.spec.mv(&c, fields(w).rsv) {
            Mv::Ok(n, _) => n.word(),
            Mv::Deleted => 0,
        }
    }

    pub fn accept(&self, k: &Call, o: &Out) -> bool {
        let sp = &self.spec;
        let cell = |w: u64| sp.cell_of(w).expect("harness: a valid cell is required");
        let gives_cell = |o: &Out, r: i64| -> Option<Cell> {
            match o {
                Out::Ok(Val::Word(w)) => sp.cell_of(*w).filter(|c| c.res as i64 == r),
                _ => None,
            }
        };
        match k.op {
            Op::Valid => *o == Out::Ok(Val::Bool(sp.is_cell_word(k.w))),
            Op::Get => {
                let f = fields(k.w);
                let v = match k.a {
                    0 => f.hb,
                    1 => f.mode,
                    2 => f.rsv,
                    3 | 6 => f.res,
                    4 => f.bc,
                    _ => f.ds[(k.b - 1) as usize],
                };
                *o == Out::Ok(Val::Int(v as i64))
            }
            Op::Put => {
                let mut f = fields(k.w);
                let v = k.c as u8;
                match k.a {
                    0 => f.hb = v,
                    1 => f.mode = v,
                    2 => f.rsv = v,
                    3 => f.res = v,
                    4 => f.bc = v,
                    _ => f.ds[(k.b - 1) as usize] = v,
                }
                gives_word(o, unfields(&f))
            }
            Op::Fresh => {
                let mut ds = [7u8; 15];
                for i in 0..k.a as usize {
                    ds[i] = k.c as u8;
                }
                gives_word(o, unfields(&Fields { hb: 0, mode: 1, rsv: 0, res: k.a as u8, bc: k.b as u8, ds }))
            }
            Op::Pent => match sp.cell_of(k.w) {
                Some(c) => *o == Out::Ok(Val::Bool(sp.is_pent(&c))),
                None => true,
            },
            Op::Res0 => match o {
                Out::Ok(Val::Words(v)) => {
                    let s: HashSet<u64> = v.iter().cloned().collect();
                    v.len() == 122 && s == (0..122).map(|b| Cell::base(b).word()).collect()
                }
                _ => false,
            },
            Op::Res0Count => *o == Out::Ok(Val::Int(122)),
            Op::Encode => {
                let fin = f64::from_bits(k.w).is_finite() && f64::from_bits(k.z).is_finite();
                let inr = (0..16).contains(&k.a);
                if fin && inr {
                    gives_cell(o, k.a).is_some()
                } else {
                    (!inr && is_err(o, &["ResDomain"])) || (!fin && is_err(o, &["LatLngDomain"]))
                }
            }
            Op::Locate => match gives_cell(o, k.a) {
                Some(c) => {
                    let q = self.geo.query(f64::from_bits(k.w), f64::from_bits(k.z), k.a as usize);
                    self.contains(&c, &q)
                }
                None => false,
            },
            Op::Centre | Op::CentreOf => match o {
                Out::Ok(Val::Floats(x, y)) => {
                    let c = cell(k.w);
                    x.is_finite()
                        && y.is_finite()
                        && x.abs() <= std::f64::consts::FRAC_PI_2 + crate::sphere::SLACK
                        && y.abs() <= std::f64::consts::PI + crate::sphere::SLACK
                        && self.is_centre(&c, &self.geo.query(*x, *y, c.res as usize))
                }
                _ => false,
            },
            Op::Back => match gives_cell(o, k.a) {
                Some(e) => {
                    let c = cell(k.w);
                    if k.a >= c.res as i64 - 1 {
                        e == Cx::ancestor(&c, k.a as usize)
                    } else {
                        self.contains(&e, &self.coarse(&c, k.a as usize))
                    }
                }
                None => false,
            },
            Op::Children => {
                let c = cell(k.w);
                let n = k.a - c.res as i64;
                let want: Vec<u64> = if (c.res as i64..16).contains(&k.a) {
                    self.descend(&c, n as usize).iter().map(|c| c.word()).collect()
                } else {
                    vec![]
                };
                *o == Out::Ok(Val::Words(want))
            }
            Op::Succ => {
                let c = cell(k.w);
                let n = (k.a - c.res as i64) as u32;
                if (k.b as i128) < count(sp.is_pent(&c), n) {
                    *o == Out::Some(self.child_at(&c, n as usize, k.b as i128).word())
                } else {
                    *o == Out::End
                }
            }
            Op::Size => {
                let c = cell(k.w);
                if (c.res as i64..16).contains(&k.a) {
                    *o == Out::Ok(Val::Big(count(sp.is_pent(&c), (k.a - c.res as i64) as u32)))
                } else {
                    is_err(o, &["ResDomain"])
                }
            }
            Op::ChildPos => {
                let c = cell(k.w);
                if !(0..16).contains(&k.a) {
                    is_err(o, &["ResDomain"])
                } else if k.a < c.res as i64 {
                    is_err(o, &["ResMismatch"])
                } else {
                    let n = (k.a - c.res as i64) as u32;
                    if k.b >= 0 && (k.b as i128) < count(sp.is_pent(&c), n) {
                        gives_word(o, self.child_at(&c, n as usize, k.b as i128).word())
                    } else {
                        is_err(o, &["Domain"])
                    }
                }
            }
            Op::Neighbor => {
                let c = cell(k.w);
                let d = sp.rot[k.b.rem_euclid(6) as usize][k.a as usize];
                if d == 1 && sp.is_pent(&c) {
                    return answers(o);
                }
                let want = if d == 0 {
                    k.w
                } else {
                    match sp.mv(&c, d) {
                        Mv::Ok(n, _) => n.word(),
                        Mv::Deleted => 0,
                    }
                };
                matches!(o, Out::Ok(Val::WordRot(w, _)) if *w == want)
            }
            Op::Heading => {
                let c = cell(k.w);
                match self.step(&c, k.b, k.a as u8) {
                    None => answers(o),
                    Some((e, n)) => {
                        if sp.is_pent(&c) || sp.is_pent(&e) {
                            answers(o)
                        } else {
                            *o == Out::Ok(Val::WordRot(e.word(), n))
                        }
                    }
                }
            }
            Op::Around => match o {
                Out::Ok(Val::Words(v)) => {
                    let want: HashSet<u64> = sp.neighbors(&cell(k.w)).iter().map(|c| c.word()).collect();
                    v.len() == want.len() && v.iter().all(|w| want.contains(w))
                }
                _ => false,
            },
            Op::DirTo => {
                let c = cell(k.w);
                let mut want = 7;
                for d in 1..7u8 {
                    if let Mv::Ok(n, _) = sp.mv(&c, d) {
                        if n.word() == k.z && !(d == 1 && sp.is_pent(&c)) {
                            want = d as i64;
                            break;
                        }
                    }
                }
                *o == Out::Ok(Val::Int(want))
            }
            Op::Disk => self.disk_ok(&self.ball(&cell(k.w), k.a as usize), o, false),
            Op::FastDisk => {
                let b = self.ball(&cell(k.w), k.a as usize);
                self.fast_disk_ok(&b, o)
            }
            Op::FastRing => {
                let c = cell(k.w);
                if k.a == 0 {
                    return *o == Out::Ok(Val::Words(vec![k.w]));
                }
                self.fast_ring_ok(&self.ball(&c, k.a as usize), k.a as u32, o)
            }
            Op::WideRing => is_err(o, &["Pentagon"]),
            Op::Bound => {
                let n = k.a as i128;
                let all = 2 + 120 * 7i128.pow(15);
                *o == Out::Ok(Val::Big((3 * n * (n + 1) + 1).min(all)))
            }
            Op::Edge => {
                let (c, e) = (cell(k.w), cell(k.z));
                let mut want = None;
                for d in 1..7u8 {
                    if d == 1 && sp.is_pent(&c) {
                        continue;
                    }
                    if sp.mv(&c, d) == Mv::Ok(e, match sp.mv(&c, d) { Mv::Ok(_, t) => t, _ => 0 }) {
                        want = Some(self.edge_word(&c, d));
                        break;
                    }
                }
                match want {
                    Some(w) => gives_word(o, w),
                    None => is_err(o, &["NotNeighbors"]),
                }
            }
            Op::EdgeValid => *o == Out::Ok(Val::Bool(self.is_edge_word(k.w))),
            Op::EdgeOrigin => {
                if self.is_edge_word(k.w) {
                    gives_word(o, self.origin_word(k.w))
                } else {
                    answers(o)
                }
            }
            Op::EdgeDest => {
                if self.is_edge_word(k.w) {
                    gives_word(o, self.edge_dest(k.w))
                } else {
                    answers(o)
                }
            }
            Op::EdgeCells => {
                if self.is_edge_word(k.w) {
                    *o == Out::Ok(Val::Words(vec![self.origin_word(k.w), self.edge_dest(k.w)]))
                } else {
                    answers(o)
                }
            }
            Op::Edges => {
                let c = cell(k.w);
                let p = sp.is_pent(&c);
                let want: HashSet<u64> =
                    (1..7u8).map(|d| if d == 1 && p { 0 } else { self.edge_word(&c, d) }).collect();
                match o {
                    Out::Ok(Val::Words(v)) => v.len() == 6 && v.iter().cloned().collect::<HashSet<_>>() == want,
                    _ => false,
                }
            }
            Op::Any => {
                let f = fields(k.w);
                match ANY[k.a as usize] {
                    "neighbor" | "centre" if f.bc > 121 => is_err(o, &["CellInvalid"]),
                    "edgeorigin" | "edgedest" | "edgecells" if f.mode != 2 => is_err(o, &["DirectedEdgeInvalid"]),
                    _ => answers(o),
                }
            }
            Op::Almost | Op::AlmostStd => {
                let t = if k.op == Op::Almost { k.c } else { 8 };
                let d1 = ((k.a >> 32) as i32 as i64 - (k.b >> 32) as i32 as i64).abs();
                let d2 = (k.a as i32 as i64 - k.b as i32 as i64).abs();
                *o == Out::Ok(Val::Bool(d1 < t && d2 < t))
            }
            Op::AlmostReal => {
                let (x, y) = (crate::call::ll(k.w, k.z), crate::call::ll(k.a as u64, k.b as u64));
                let near = |d: f64| crate::call::eighths(d) < 8;
                *o == Out::Ok(Val::Bool(near(x.lat - y.lat) && near(x.lng - y.lng)))
            }
            Op::Nth => {
                let c = cell(k.w);
                if (c.res as i64..16).contains(&k.a) {
                    let n = (k.a - c.res as i64) as u32;
                    if (k.b as i128) < count(sp.is_pent(&c), n) {
                        *o == Out::Some(self.child_at(&c, n as usize, k.b as i128).word())
                    } else {
                        *o == Out::End
                    }
                } else {
                    *o == Out::End
                }
            }
            Op::FarRing | Op::FarDisk => {
                if sp.pent_dist(&cell(k.w)) <= k.a {
                    is_err(o, &["Pentagon"])
                } else {
                    matches!(o, Out::Ok(_))
                }
            }
            Op::Address => match o {
                Out::Ok(Val::Ints(v)) => {
                    let c = cell(k.w);
                    (0..20).contains(&v[0])
                        && v[1..].iter().all(|x| (0..1 << 30).contains(x))
                        && v[1..].contains(&0)
                        && self.is_address(&c, v[0] as usize, (v[1] - v[3], v[2] - v[3]))
                }
                _ => false,
            },
            Op::NameOf => {
                let p = ((k.b >> 32) as i32 as i64, k.b as i32 as i64);
                let r = k.c as usize;
                if !self.near_face(r, p) {
                    // far outside: judged by TLC alone
                    return if hex_dist(p) > 4 * scale_of(r) { gives_word(o, 0) } else { answers(o) };
                }
                match gives_cell(o, k.c) {
                    Some(c) => self.is_address(&c, k.a as usize, p),
                    None => false,
                }
            }
            Op::Unfold => match o {
                Out::Ok(Val::Ints(v)) => {
                    let c = cell(k.w);
                    let mut p = ((k.b >> 32) as i32 as i64, k.b as i32 as i64);
                    let home = sp.homes[c.bc as usize] == (k.a as usize, p);
                    for i in 1..=c.res as usize {
                        p = add(to_finer(i, p), sp.u[c.ds[i - 1] as usize]);
                    }
                    v[1] == k.a
                        && to_ijk(p)[..] == v[2..]
                        && (!home || v[0] == 1 || Spec::inside(to_class2(c.res as usize, p), scale_of(c.res as usize)))
                }
                _ => false,
            },
            Op::BaseAt => {
                let p = (k.b / 9 - k.b % 3, k.b / 3 % 3 - k.b % 3);
                match o {
                    Out::Ok(Val::Ints(v)) => *v == sp.base_at[&(k.a as usize, p)],
                    _ => false,
                }
            }
            Op::BaseNb => match o {
                Out::Ok(Val::Ints(v)) => {
                    let (b, d) = (k.a as u8, k.b as u8);
                    if d == 1 && sp.pent[b as usize] {
                        return v[0] == 127;
                    }
                    match sp.mv(&Cell::base(b), d) {
                        _ if d == 0 => v[0] == k.a && v[1] == 0,
                        Mv::Deleted => v[0] == 127,
                        Mv::Ok(n, t) => {
                            v[0] == n.bc as i64 && (0..6).contains(&v[1]) && (sp.pent[b as usize] || sp.pent[n.bc as usize] || v[1] == t as i64)
                        }
                    }
                }
                _ => false,
            },
            Op::BaseIs => match o {
                Out::Ok(Val::Ints(v)) => {
                    let real = (0..122).contains(&k.a);
                    v[0] == (real && sp.pent[k.a as usize]) as i64 && v[1] == (real && sp.polar[k.a as usize]) as i64
                }
                _ => false,
            },
            Op::CwOff => *o == Out::Ok(Val::Bool(sp.cwoff[k.a as usize].contains(&k.b))),
            Op::Turn => {
                let mut f = fields(k.w);
                let n = if k.a % 2 == 0 { 1 } else { 5 };
                let l = f.ds[..f.res as usize].iter().cloned().find(|d| *d != 0).unwrap_or(0);
                let n = if k.a >= 2 && l != 0 && sp.rot[n][l as usize] == 1 { 2 * n % 6 } else { n };
                for d in f.ds[..f.res as usize].iter_mut() {
                    *d = sp.rot[n][*d as usize];
                }
                gives_word(o, unfields(&f))
            }
            Op::Zero => {
                let mut f = fields(k.w);
                for i in k.a..=k.b {
                    f.ds[i as usize - 1] = 0;
                }
                gives_word(o, unfields(&f))
            }
            Op::Lead => {
                let f = fields(k.w);
                let l = f.ds[..f.res as usize].iter().cloned().find(|d| *d != 0).unwrap_or(0);
                *o == Out::Ok(Val::Int(l as i64))
            }
            Op::Count => {
                let mut f = fields(k.w);
                f.ds[f.res as usize..k.a as usize].fill(0);
                f.res = k.a as u8;
                let w = unfields(&f) + ((k.c as u64) << (3 * (15 - k.b)));
                *o == Out::Ok(Val::Words(vec![w & 0x1fff_ffff_ffff, w]))
            }
            Op::HasKids => *o == Out::Ok(Val::Bool((fields(k.w).res as i64..16).contains(&k.a))),
            Op::PosValid => {
                let c = cell(k.w);
                if !(c.res as i64..16).contains(&k.a) {
                    is_err(o, &["ResDomain"])
                } else if k.b >= 0 && (k.b as i128) < count(sp.is_pent(&c), (k.a - c.res as i64) as u32) {
                    *o == Out::Ok(Val::Unit)
                } else {
                    is_err(o, &["Domain"])
                }
            }
            Op::Class3 => *o == Out::Ok(Val::Bool(k.a % 2 == 1)),
            Op::Lng | Op::Lat | Op::Degs | Op::Travel | Op::Azimuth | Op::PosAngle | Op::Vec | Op::SqDist | Op::Mag => crate::sphere::good(k, o),
            Op::Len | Op::At | Op::Go => true,
            Op::Iter | Op::Next | Op::Jump | Op::Left | Op::Last | Op::Hint | Op::Least | Op::Rest | Op::Walk | Op::Step => answers(o),
        }
    }

    /// p, a lattice point in the plane of face f, is the cell's address there
    pub fn is_address(&self, c: &Cell, f: usize, p: P) -> bool {
        self.images(c, f).contains(&to_class2(c.res as usize, p))
    }
    /// the lattice point's ancestor at resolution 0
    pub fn base_point(&self, r: usize, mut p: P) -> P {
        for i in (1..=r).rev() {
            p = (0..7).find_map(|d| up_point(i, sub(p, self.spec.u[d]))).unwrap();
        }
        p
    }
    pub fn near_face(&self, r: usize, p: P) -> bool {
        let q = to_class2(r, p);
        let s = scale_of(r);
        let over: Vec<usize> = (0..3).filter(|e| edge_form(*e, q) > 2 * s).collect();
        match over[..] {
            [] => true,
            [e] => {
                Spec::inside(self.spec.fold_pt(0, e, q, s), s)
                    && match self.base_point(r, p) {
                        b if hex_dist(b) > 2 => false,
                        (2, 0) | (0, 2) | (-2, -2) => edge_form(e, q) - 2 * s <= if r % 2 == 1 { 5 } else { 1 },
                        _ => true,
                    }
            }
            _ => false,
        }
    }

    pub fn disk_ok(&self, ball: &[(Cell, u32)], o: &Out, ordered: bool) -> bool {
        match o {
            Out::Ok(Val::Pairs(v)) => {
                if v.len() != ball.len() {
                    return false;
                }
                if ordered && v.windows(2).any(|p| p[0].1 > p[1].1) {
                    return false;
                }
                let m: HashMap<u64, u32> = v.iter().cloned().collect();
                m.len() == ball.len() && ball.iter().all(|(c, d)| m.get(&c.word()) == Some(d))
            }
            _ => false,
        }
    }
    pub fn fast_disk_ok(&self, ball: &[(Cell, u32)], o: &Out) -> bool {
        if ball.iter().any(|(c, _)| self.spec.is_pent(c)) {
            is_err(o, &["Pentagon"])
        } else {
            self.disk_ok(ball, o, true)
        }
    }
    pub fn fast_ring_ok(&self, ball: &[(Cell, u32)], k: u32, o: &Out) -> bool {
        if ball.iter().any(|(c, _)| self.spec.is_pent(c)) {
            return is_err(o, &["Pentagon"]);
        }
        match o {
            Out::Ok(Val::Words(v)) => {
                let s: HashSet<u64> = v.iter().cloned().collect();
                let want: HashSet<u64> = ball.iter().filter(|x| x.1 == k).map(|x| x.0.word()).collect();
                v.len() == 6 * k as usize && s == want
            }
            _ => false,
        }
    }
}
