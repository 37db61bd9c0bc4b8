//! The specification's tables and a native reading of its operators.  It is
//! only used to screen many executions quickly; what it flags, and a sample
//! of what it passes, goes to TLC for the verdict.
use crate::json::{parse, J};

pub type P = (i64, i64);

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Cell {
    pub bc: u8,
    pub res: u8,
    pub ds: [u8; 15],
}

impl Cell {
    pub fn base(bc: u8) -> Cell {
        Cell { bc, res: 0, ds: [0; 15] }
    }
    pub fn lead(&self) -> u8 {
        for i in 0..self.res as usize {
            if self.ds[i] != 0 {
                return self.ds[i];
            }
        }
        0
    }
    pub fn word(&self) -> u64 {
        let mut w = (1u64 << 59) | ((self.res as u64) << 52) | ((self.bc as u64) << 45);
        for i in 0..15 {
            let d = if i < self.res as usize { self.ds[i] as u64 } else { 7 };
            w |= d << (3 * (14 - i));
        }
        w
    }
    pub fn parent(&self) -> Cell {
        let mut c = *self;
        c.res -= 1;
        c.ds[c.res as usize] = 0;
        c
    }
    pub fn child(&self, d: u8) -> Cell {
        let mut c = *self;
        c.ds[c.res as usize] = d;
        c.res += 1;
        c
    }
}

/// The fields of a 64-bit index, by the published layout.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Fields {
    pub hb: u8,
    pub mode: u8,
    pub rsv: u8,
    pub res: u8,
    pub bc: u8,
    pub ds: [u8; 15],
}
pub fn fields(w: u64) -> Fields {
    let mut ds = [0u8; 15];
    for i in 0..15 {
        ds[i] = ((w >> (3 * (14 - i))) & 7) as u8;
    }
    Fields {
        hb: (w >> 63) as u8,
        mode: ((w >> 59) & 15) as u8,
        rsv: ((w >> 56) & 7) as u8,
        res: ((w >> 52) & 15) as u8,
        bc: ((w >> 45) & 127) as u8,
        ds,
    }
}
pub fn unfields(f: &Fields) -> u64 {
    let mut w = ((f.hb as u64) << 63)
        | ((f.mode as u64) << 59)
        | ((f.rsv as u64) << 56)
        | ((f.res as u64) << 52)
        | ((f.bc as u64) << 45);
    for i in 0..15 {
        w |= (f.ds[i] as u64) << (3 * (14 - i));
    }
    w
}

pub struct Spec {
    pub gluing: [[(usize, usize, i64, i64); 3]; 20],
    pub homes: Vec<(usize, P)>,
    pub pent: [bool; 128],
    pub rot: [[u8; 7]; 6],
    pub carry: [[[(u8, u8); 7]; 7]; 2],
    pub top: Vec<(u8, u8)>,
    pub u: [P; 7],
    /// lookups by face: base cell and turn
    pub base_at: std::collections::HashMap<(usize, P), Vec<i64>>,
    pub polar: [bool; 128],
    pub cwoff: Vec<Vec<i64>>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mv {
    Ok(Cell, u8),
    Deleted,
}

pub fn add(p: P, q: P) -> P {
    (p.0 + q.0, p.1 + q.1)
}
pub fn sub(p: P, q: P) -> P {
    (p.0 - q.0, p.1 - q.1)
}
pub fn rot1(p: P) -> P {
    (p.0 - p.1, p.0)
}
pub fn rotn(n: usize, mut p: P) -> P {
    for _ in 0..n % 6 {
        p = rot1(p);
    }
    p
}
pub fn to_finer(r: usize, p: P) -> P {
    if r % 2 == 1 {
        (2 * p.0 + p.1, 3 * p.1 - p.0)
    } else {
        (3 * p.0 - p.1, p.0 + 2 * p.1)
    }
}
pub fn scale_of(r: usize) -> i64 {
    7i64.pow(((r + 1) / 2) as u32)
}
pub fn to_class2(r: usize, p: P) -> P {
    if r % 2 == 1 {
        to_finer(r + 1, p)
    } else {
        p
    }
}
pub fn edge_form(e: usize, p: P) -> i64 {
    match e {
        0 => p.0 + p.1,
        1 => p.0 - 2 * p.1,
        _ => p.1 - 2 * p.0,
    }
}
pub fn corner_pt(m: usize, s: i64) -> P {
    match m {
        0 => (2 * s, 0),
        1 => (0, 2 * s),
        _ => (-2 * s, -2 * s),
    }
}
/// the point of resolution r - 1 at a point of resolution r, if there is one
pub fn up_point(r: usize, p: P) -> Option<P> {
    let (x, y) = if r % 2 == 1 { (3 * p.0 - p.1, p.0 + 2 * p.1) } else { (2 * p.0 + p.1, 3 * p.1 - p.0) };
    if x % 7 == 0 && y % 7 == 0 {
        Some((x / 7, y / 7))
    } else {
        None
    }
}
pub fn hex_dist(p: P) -> i64 {
    p.0.abs().max(p.1.abs()).max((p.0 - p.1).abs())
}
/// a difference of Class II coordinates, both of cells of resolution r, in r's own axes
pub fn from_class2(r: usize, p: P) -> P {
    if r % 2 == 1 {
        ((2 * p.0 + p.1) / 7, (3 * p.1 - p.0) / 7)
    } else {
        p
    }
}
const CW_EDGE: [usize; 3] = [0, 2, 1];
const SECTOR: [usize; 7] = [0, 5, 1, 0, 3, 4, 2];

impl Spec {
    pub fn load(path: &str) -> Spec {
        let j = parse(&std::fs::read_to_string(path).expect("tables"));
        let arr = |x: &J| x.a().iter().map(|v| v.n()).collect::<Vec<i64>>();
        let mut gluing = [[(0, 0, 0, 0); 3]; 20];
        for (f, x) in j.get("gluing").a().iter().enumerate() {
            for (e, y) in x.a().iter().enumerate() {
                let v = arr(y);
                gluing[f][e] = (v[0] as usize, v[1] as usize, v[2], v[3]);
            }
        }
        let homes = j
            .get("homes")
            .a()
            .iter()
            .map(|y| {
                let v = arr(y);
                (v[0] as usize, (v[1], v[2]))
            })
            .collect();
        let mut pent = [false; 128];
        for (i, v) in arr(j.get("pents")).iter().enumerate() {
            pent[i] = *v == 1;
        }
        let mut rot = [[0u8; 7]; 6];
        for (n, x) in j.get("rot").a().iter().enumerate() {
            for (d, v) in arr(x).iter().enumerate() {
                rot[n][d] = *v as u8;
            }
        }
        let mut carry = [[[(0u8, 0u8); 7]; 7]; 2];
        for (c, x) in j.get("carry").a().iter().enumerate() {
            for (d, y) in x.a().iter().enumerate() {
                for (e, z) in y.a().iter().enumerate() {
                    let v = arr(z);
                    carry[c][d][e] = (v[0] as u8, v[1] as u8);
                }
            }
        }
        let mut top = vec![];
        for b in j.get("top").a() {
            for l in b.a() {
                for e in l.a() {
                    for m in e.a() {
                        let v = arr(m);
                        top.push((v[0] as u8, v[1] as u8));
                    }
                }
            }
        }
        let mut u = [(0, 0); 7];
        for (d, x) in j.get("units").a().iter().enumerate() {
            let v = arr(x);
            u[d] = (v[0], v[1]);
        }
        assert_eq!(top.len(), 122 * 343);
        let mut base_at = std::collections::HashMap::new();
        for (f, x) in j.get("baseat").a().iter().enumerate() {
            for y in x.a() {
                let v = arr(y);
                base_at.insert((f, (v[0], v[1])), vec![v[2], v[3]]);
            }
        }
        let mut polar = [false; 128];
        for b in arr(j.get("polar")) {
            polar[b as usize] = true;
        }
        let cwoff = j.get("cwoff").a().iter().map(arr).collect();
        Spec { gluing, homes, pent, rot, carry, top, u, base_at, polar, cwoff }
    }

    pub fn is_cell(&self, c: &Cell) -> bool {
        c.bc < 122
            && c.res <= 15
            && c.ds[..c.res as usize].iter().all(|d| *d < 7)
            && !(self.pent[c.bc as usize] && c.lead() == 1)
    }
    pub fn is_pent(&self, c: &Cell) -> bool {
        self.pent[c.bc as usize] && c.lead() == 0
    }
    pub fn is_cell_word(&self, w: u64) -> bool {
        self.cell_of(w).is_some()
    }
    pub fn cell_of(&self, w: u64) -> Option<Cell> {
        let f = fields(w);
        if f.hb != 0 || f.mode != 1 || f.rsv != 0 {
            return None;
        }
        let mut c = Cell { bc: f.bc, res: f.res, ds: [0; 15] };
        for i in 0..15 {
            if i < f.res as usize {
                c.ds[i] = f.ds[i];
            } else if f.ds[i] != 7 {
                return None;
            }
        }
        if self.is_cell(&c) {
            Some(c)
        } else {
            None
        }
    }

    pub fn mv(&self, c: &Cell, d: u8) -> Mv {
        let l = c.lead();
        let mut n = *c;
        let mut e = d;
        let mut i = c.res as usize;
        while e != 0 && i > 0 {
            let (x, y) = self.carry[i % 2][n.ds[i - 1] as usize][e as usize];
            n.ds[i - 1] = x;
            e = y;
            i -= 1;
        }
        let l2 = n.lead();
        let (b, t) = self.top[((c.bc as usize * 7 + l as usize) * 7 + e as usize) * 7 + l2 as usize];
        if t == 98 {
            return Mv::Deleted;
        }
        if t == 99 {
            panic!("mirror: impossible move {:?} {}", c, d);
        }
        n.bc = b;
        if t != 0 {
            for i in 0..n.res as usize {
                n.ds[i] = self.rot[t as usize][n.ds[i] as usize];
            }
        }
        Mv::Ok(n, t)
    }
    pub fn neighbors(&self, c: &Cell) -> Vec<Cell> {
        let mut v = vec![];
        for d in (if self.is_pent(c) { 2 } else { 1 })..7 {
            if let Mv::Ok(n, _) = self.mv(c, d) {
                v.push(n);
            }
        }
        v
    }

    pub fn inside(p: P, s: i64) -> bool {
        (0..3).all(|e| edge_form(e, p) <= 2 * s)
    }
    pub fn fold_pt(&self, f: usize, e: usize, p: P, s: i64) -> P {
        let g = self.gluing[f][e];
        add(rotn(g.1, p), (s * g.2, s * g.3))
    }
    fn norm1(&self, f: usize, p: P, s: i64) -> (usize, P) {
        for e in 0..3 {
            if edge_form(e, p) > 2 * s {
                return (self.gluing[f][e].0, self.fold_pt(f, e, p, s));
            }
        }
        (f, p)
    }
    pub fn point_of(&self, c: &Cell) -> (usize, P) {
        let r = c.res as usize;
        let s = scale_of(r);
        let (mut f, mut p) = self.homes[c.bc as usize];
        for i in 1..=r {
            p = add(to_finer(i, p), self.u[c.ds[i - 1] as usize]);
        }
        p = to_class2(r, p);
        if self.pent[c.bc as usize] {
            let mut m = 0;
            for _ in 0..SECTOR[c.lead() as usize] {
                let e = CW_EDGE[m];
                let q = self.fold_pt(f, e, corner_pt(m, s), s);
                p = self.fold_pt(f, e, p, s);
                f = self.gluing[f][e].0;
                m = (0..3).find(|m| corner_pt(*m, s) == q).unwrap();
            }
        }
        self.norm1(f, p, s)
    }

    /// grid distance to the nearest pentagon: a corner of the cell's face
    pub fn pent_dist(&self, c: &Cell) -> i64 {
        let r = c.res as usize;
        let s = scale_of(r);
        let (_, p) = self.point_of(c);
        (0..3).map(|m| hex_dist(from_class2(r, sub(p, corner_pt(m, s))))).min().unwrap()
    }
}
