//! Inputs: cells of every kind, points, words.
use crate::accept::Cx;
use crate::geo::{gap2, vec_of};
use crate::mirror::*;
use crate::run::Rng;

pub const KINDS: [&str; 8] = [
    "uniform", "structured", "pentagon area", "base cell border", "carry chain", "face edge", "meridian, axis or pole",
    "numbers of the sources",
];
/// the numbers that occur in the library's sources, as hints where inputs may
/// be special: one to a line, with a point if they are fractions
pub fn literals() -> (Vec<u64>, Vec<f64>) {
    let text = std::env::var("H3_LITERALS").ok().and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default();
    let mut v = (vec![0, 1, 7], vec![0.0, 1.0]);
    for x in text.split_whitespace() {
        if let Ok(n) = x.parse::<u64>() {
            v.0.push(n);
        } else if let Ok(y) = x.parse::<f64>() {
            v.1.push(y);
        }
    }
    v
}

impl Cx {
    pub fn pents(&self) -> Vec<u8> {
        (0..122u8).filter(|b| self.spec.pent[*b as usize]).collect()
    }
    /// a number of the sources, or next to one
    pub fn lit(&self, g: &mut Rng) -> i64 {
        let n = *g.pick(&self.lits) as i64;
        match g.below(6) {
            0 => n.wrapping_add(1),
            1 => n.wrapping_sub(1),
            2 => n.wrapping_neg(),
            _ => n,
        }
    }
    /// up to a bound
    pub fn lit_to(&self, g: &mut Rng, top: i64) -> i64 {
        for _ in 0..20 {
            let n = self.lit(g);
            if (0..=top).contains(&n) {
                return n;
            }
        }
        g.range(0, top)
    }
    /// an angle of the sources, in radians or in degrees, or next to one
    pub fn lit_angle(&self, g: &mut Rng) -> f64 {
        let x = if g.chance(1, 3) { self.lit(g).clamp(-720, 720) as f64 } else { *g.pick(&self.flits) };
        let x = if g.chance(1, 2) { x } else { x.to_radians() };
        let e = match g.below(4) {
            0 => (g.f() - 0.5) * 10f64.powf(-1.0 - g.f() * 14.0),
            1 => (g.f() - 0.5) * 0.1,
            _ => 0.0,
        };
        (if g.chance(1, 4) { -x } else { x }) + e
    }
    /// a cell with numbers of the sources in its word
    pub fn lit_cell(&self, g: &mut Rng, r: usize) -> Cell {
        let n = *g.pick(&self.lits);
        let f = fields(n);
        let mut c = self.uniform(g, r);
        if n >> 45 != 0 && f.bc < 122 {
            // a whole word: its relatives
            c.bc = f.bc;
            for i in 0..r {
                if f.ds[i] < 7 && i < f.res as usize {
                    c.ds[i] = f.ds[i];
                }
            }
        } else if r > 0 {
            // its digits, in base 7 or 8, first or last or in between
            let base = if g.chance(1, 2) { 7 } else { 8 };
            let mut ds = vec![];
            let mut m = n;
            while m > 0 && ds.len() < r {
                ds.push((m % base % 7) as u8);
                m /= base;
            }
            ds.reverse();
            let at = match g.below(3) {
                0 => 0,
                1 => r - ds.len(),
                _ => g.below((r - ds.len()) as u64 + 1) as usize,
            };
            let noise = g.chance(1, 2);
            for i in 0..r {
                if i >= at && i < at + ds.len() {
                    c.ds[i] = ds[i - at];
                } else if !noise {
                    c.ds[i] = 0;
                }
            }
            if g.chance(1, 2) {
                c.bc = (*g.pick(&self.lits) % 122) as u8;
            }
        }
        let c = self.fix(c, g);
        let d = 1 + g.below(6) as u8;
        match self.spec.mv(&c, d) {
            Mv::Ok(x, _) if g.chance(1, 4) => x,
            _ => c,
        }
    }
    fn fix(&self, mut c: Cell, g: &mut Rng) -> Cell {
        if !self.spec.is_cell(&c) {
            // replace the deleted leading digit
            for i in 0..c.res as usize {
                if c.ds[i] != 0 {
                    c.ds[i] = 2 + g.below(5) as u8;
                    break;
                }
            }
        }
        c
    }
    pub fn uniform(&self, g: &mut Rng, r: usize) -> Cell {
        let mut c = Cell::base(g.below(122) as u8);
        for _ in 0..r {
            c = c.child(g.below(7) as u8);
        }
        self.fix(c, g)
    }
    /// leading zeros, then a run, a pattern or noise
    pub fn structured(&self, g: &mut Rng, r: usize) -> Cell {
        let b = if g.chance(1, 2) { *g.pick(&self.pents()) } else { g.below(122) as u8 };
        let mut c = Cell::base(b);
        let zeros = if g.chance(1, 2) { g.below(r as u64 + 1) as usize } else { 0 };
        let style = g.below(4);
        let d0 = g.below(7) as u8;
        let d1 = g.below(7) as u8;
        for i in 0..r {
            let d = if i < zeros {
                0
            } else {
                match style {
                    0 => g.below(7) as u8,
                    1 => d0,
                    2 => {
                        if i % 2 == 0 {
                            d0
                        } else {
                            d1
                        }
                    }
                    _ => {
                        if g.chance(1, 5) {
                            g.below(7) as u8
                        } else {
                            d0
                        }
                    }
                }
            };
            c = c.child(d);
        }
        self.fix(c, g)
    }
    /// within a few steps of a pentagon of this resolution
    pub fn near_pent(&self, g: &mut Rng, r: usize) -> Cell {
        let mut c = Cell::base(*g.pick(&self.pents()));
        for _ in 0..r {
            c = c.child(0);
        }
        let n = g.below(8);
        for _ in 0..n {
            let d = 1 + g.below(6) as u8;
            if let Mv::Ok(x, _) = self.spec.mv(&c, d) {
                c = x;
            }
        }
        c
    }
    fn border_here(&self, c: &Cell) -> bool {
        (1..7).any(|d| match self.spec.mv(c, d) {
            Mv::Ok(n, t) => n.bc != c.bc || t != 0,
            Mv::Deleted => true,
        })
    }
    /// on the border of its base cell, or of a pentagon's cut
    pub fn border(&self, g: &mut Rng, r: usize) -> Cell {
        let mut c = if g.chance(1, 3) { Cell::base(*g.pick(&self.pents())) } else { Cell::base(g.below(122) as u8) };
        for _ in 0..r {
            let ks: Vec<Cell> =
                (0..7).map(|d| c.child(d)).filter(|k| self.spec.is_cell(k) && self.border_here(k)).collect();
            c = if ks.is_empty() { c.child(0) } else { *g.pick(&ks) };
        }
        c
    }
    /// a cell and direction whose digit carry runs through n levels
    pub fn carry(&self, g: &mut Rng, r: usize) -> (Cell, u8) {
        let mut c = self.uniform(g, r);
        let n = g.below(r as u64 + 1) as usize;
        let d = 1 + g.below(6) as u8;
        let mut e = d;
        for j in 0..n {
            let i = r - j;
            let opts: Vec<u8> = (0..7).filter(|x| self.spec.carry[i % 2][*x as usize][e as usize].1 != 0).collect();
            if opts.is_empty() {
                break;
            }
            let x = *g.pick(&opts);
            c.ds[i - 1] = x;
            e = self.spec.carry[i % 2][x as usize][e as usize].1;
        }
        let c2 = self.fix(c, g);
        (c2, d)
    }
    /// as close as can be to an icosahedron edge
    pub fn face_edge(&self, g: &mut Rng, r: usize) -> Cell {
        let mut c = Cell::base(g.below(122) as u8);
        let slack = g.below(3) as i64;
        for _ in 0..r {
            let mut best: Vec<(i64, Cell)> = (0..7)
                .map(|d| c.child(d))
                .filter(|k| self.spec.is_cell(k))
                .map(|k| {
                    let (_, p) = self.spec.point_of(&k);
                    let s = scale_of(k.res as usize);
                    ((0..3).map(|e| 2 * s - edge_form(e, p)).min().unwrap(), k)
                })
                .collect();
            best.sort_by_key(|x| x.0);
            let n = if g.chance(1, 4) { best.len().min(1 + slack as usize) } else { 1 };
            c = best[g.below(n as u64) as usize].1;
        }
        c
    }
    /// the cell whose centre is about nearest to a point
    pub fn toward(&self, lat: f64, lng: f64, r: usize) -> Cell {
        let v = vec_of(lat, lng);
        let gap = |c: &Cell| {
            let (f, p) = self.spec.point_of(c);
            let s = scale_of(c.res as usize) as f64;
            gap2(v, self.geo.vec(f, p.0 as f64 / s, p.1 as f64 / s))
        };
        let mut best: Vec<(f64, Cell)> = (0..122u8).map(|b| (gap(&Cell::base(b)), Cell::base(b))).collect();
        for i in 0..=r {
            if i > 0 {
                best = best
                    .iter()
                    .flat_map(|x| (0..7).map(|d| x.1.child(d)).collect::<Vec<_>>())
                    .filter(|c| self.spec.is_cell(c))
                    .map(|c| (gap(&c), c))
                    .collect();
            }
            best.sort_by(|x, y| x.0.partial_cmp(&y.0).unwrap());
            best.truncate(4);
        }
        best[0].1
    }
    /// places where coordinates are special: (lat, lng)
    pub fn special_place(&self, g: &mut Rng) -> (f64, f64) {
        let pi = std::f64::consts::PI;
        let tiny = |g: &mut Rng| -> f64 {
            match g.below(3) {
                0 => 0.0,
                _ => (if g.chance(1, 2) { 1.0 } else { -1.0 }) * 10f64.powf(-1.0 - g.f() * 14.0),
            }
        };
        let f = g.below(20) as usize;
        let (la, ln) = self.geo.point(f, 0.0, 0.0);
        match g.below(7) {
            6 => {
                let other = (2.0 * g.f() - 1.0).asin();
                let (x, y) = match g.below(3) {
                    0 => (self.lit_angle(g), self.lit_angle(g)),
                    1 => (self.lit_angle(g), other * 2.0),
                    _ => (other, self.lit_angle(g)),
                };
                (if x.abs() <= pi / 2.0 { x } else { other }, if y.abs() <= pi { y } else { other * 2.0 })
            }
            // due north or south of a face centre
            0 => {
                let d = if g.chance(1, 2) { (g.f() - 0.5) * 1.3 } else { tiny(g) };
                ((la + d).clamp(-1.57, 1.57), ln + tiny(g))
            }
            // along the axes of a face's plane, and its lines of symmetry
            1 => {
                let (a, b) = [(1.0, 0.0), (0.0, 1.0), (1.0, 1.0), (1.0, -1.0), (1.0, 2.0), (2.0, 1.0)][g.below(6) as usize];
                let t = (g.f() * 2.0 - 1.0) * 2.0;
                self.geo.point(f, a * t + tiny(g), b * t + tiny(g))
            }
            // poles
            2 => {
                let s = if g.chance(1, 2) { 1.0 } else { -1.0 };
                (s * (pi / 2.0 - tiny(g).abs()), (g.f() * 2.0 - 1.0) * pi)
            }
            // antimeridian, prime meridian, quarter meridians
            3 => {
                let l = *g.pick(&[pi, -pi, 0.0, pi / 2.0, -pi / 2.0]);
                ((g.f() * 2.0 - 1.0).asin(), (l + tiny(g)).clamp(-pi, pi))
            }
            // equator
            4 => (tiny(g), (g.f() * 2.0 - 1.0) * pi),
            // a face centre
            _ => (la + tiny(g), ln + tiny(g)),
        }
    }
    pub fn special_cell(&self, g: &mut Rng, r: usize) -> Cell {
        let (lat, lng) = self.special_place(g);
        self.toward(lat, lng, r)
    }
    pub fn cell(&self, g: &mut Rng, r: usize) -> (Cell, usize) {
        let k = if g.chance(1, 10) { 6 + g.below(2) as usize } else { g.below(6) as usize };
        let c = match k {
            0 => self.uniform(g, r),
            1 => self.structured(g, r),
            2 => self.near_pent(g, r),
            3 => self.border(g, r),
            4 => self.carry(g, r).0,
            5 => self.face_edge(g, r),
            7 => self.lit_cell(g, r),
            _ => self.special_cell(g, r),
        };
        (c, k)
    }
    /// a point: somewhere, or next to something
    pub fn point(&self, g: &mut Rng, r: usize) -> (f64, f64, &'static str) {
        match g.below(7) {
            6 => {
                let (lat, lng) = self.special_place(g);
                (lat, lng, "meridian, axis or pole")
            }
            0 => {
                let z = 2.0 * g.f() - 1.0;
                (z.asin(), (2.0 * g.f() - 1.0) * std::f64::consts::PI, "anywhere")
            }
            1 | 2 => {
                // around a cell's boundary: half way to a neighbour, or a corner
                let (c, _) = self.cell(g, r);
                let s = scale_of(r) as f64;
                let (f, p) = self.spec.point_of(&c);
                let w = to_class2(r, self.spec.u[1 + g.below(6) as usize]);
                let w2 = rot1(w);
                let eps = [0.0, 1e-3, -1e-3, 1e-2, -1e-2, 0.1, -0.1][g.below(7) as usize];
                let (x, y) = if g.chance(1, 2) {
                    let t = 0.5 + eps;
                    let u = (g.f() - 0.5) / 3.0; // along the side
                    let q = (w2.0 as f64 - 0.5 * w.0 as f64, w2.1 as f64 - 0.5 * w.1 as f64);
                    (t * w.0 as f64 + u * q.0, t * w.1 as f64 + u * q.1)
                } else {
                    let t = (1.0 + eps) / 3.0;
                    (t * (w.0 + w2.0) as f64, t * (w.1 + w2.1) as f64)
                };
                let (lat, lng) = self.geo.point(f, (p.0 as f64 + x) / s, (p.1 as f64 + y) / s);
                (lat, lng, "cell boundary")
            }
            3 => {
                // along a face edge
                let f = g.below(20) as usize;
                let (c1, c2) = match g.below(3) {
                    0 => ((2.0, 0.0), (0.0, 2.0)),
                    1 => ((2.0, 0.0), (-2.0, -2.0)),
                    _ => ((0.0, 2.0), (-2.0, -2.0)),
                };
                let t = if g.chance(1, 4) { g.f() * 1e-3 } else { g.f() };
                let m = 10f64.powf(-g.f() * 9.0) * if g.chance(1, 2) { 1.0 } else { -1.0 };
                let (a, b) = (c1.0 + (c2.0 - c1.0) * t, c1.1 + (c2.1 - c1.1) * t);
                let (lat, lng) = self.geo.point(f, a * (1.0 - m), b * (1.0 - m));
                (lat, lng, "face edge")
            }
            4 => {
                // near a pentagon's centre or a face centre
                let f = g.below(20) as usize;
                let m = 10f64.powf(-g.f() * 8.0);
                let an = g.f() * 6.283;
                let (a0, b0) = [(2.0, 0.0), (0.0, 2.0), (-2.0, -2.0), (0.0, 0.0)][g.below(4) as usize];
                let (lat, lng) = self.geo.point(f, a0 + m * an.cos(), b0 + m * an.sin());
                (lat, lng, "pentagon or face centre")
            }
            _ => {
                let lat = (if g.chance(1, 2) { 1.0 } else { -1.0 })
                    * (std::f64::consts::FRAC_PI_2 - if g.chance(1, 6) { 0.0 } else { 10f64.powf(-g.f() * 9.0) });
                let edge = std::f64::consts::PI * [1.0, -1.0, 2.0, -2.0, 0.0][g.below(5) as usize];
                if g.chance(1, 2) {
                    (lat, (2.0 * g.f() - 1.0) * std::f64::consts::PI, "pole")
                } else {
                    let l = edge + (g.f() - 0.5) * 10f64.powf(-g.f() * 9.0);
                    let l = l.clamp(-2.0 * std::f64::consts::PI, 2.0 * std::f64::consts::PI);
                    ((2.0 * g.f() - 1.0) * 1.57, l, "antimeridian")
                }
            }
        }
    }
    /// a word near validity: a valid cell or edge with some fields disturbed
    pub fn word(&self, g: &mut Rng) -> u64 {
        match g.below(9) {
            8 => {
                let n = self.lit(g) as u64;
                let (c, _) = self.cell(g, 15);
                match g.below(3) {
                    0 => n,
                    1 => c.word() ^ n,
                    _ => {
                        let low = (1u64 << g.below(64)) - 1;
                        c.word() & !low | n & low
                    }
                }
            }
            0 => g.next(),
            1 => {
                // cell mode, noise elsewhere
                (g.next() & !(0xFF << 56)) | (1 << 59)
            }
            2 => (g.next() & !(0xFF << 56)) | (2 << 59) | (g.below(8) << 56),
            3 => !0u64 << g.below(64),
            _ => {
                let r = g.below(16) as usize;
                let (c, _) = self.cell(g, r);
                let mut f = fields(c.word());
                if g.chance(1, 3) {
                    f.mode = 2;
                    f.rsv = g.below(8) as u8;
                }
                for _ in 0..g.below(3) {
                    match g.below(7) {
                        0 => f.hb ^= 1,
                        1 => f.mode = g.below(16) as u8,
                        2 => f.rsv = g.below(8) as u8,
                        3 => f.res = g.below(16) as u8,
                        4 => f.bc = g.below(128) as u8,
                        _ => {
                            let i = g.below(15) as usize;
                            f.ds[i] = if g.chance(1, 2) { 7 } else { g.below(8) as u8 }
                        }
                    }
                }
                unfields(&f)
            }
        }
    }
}
