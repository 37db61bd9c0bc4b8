//! The sphere: an independent projection of latitude/longitude onto the
//! faces, in 3D vectors.  Only face 0's placement is given; the other faces
//! follow from the specification's gluing.
use crate::mirror::{scale_of, Spec, P};

pub const RES0_U: f64 = 0.38196601125010500003; // (3 - sqrt 5) / 2
const SQ32: f64 = 0.866_025_403_784_438_6;
pub const FRAC: i64 = 10000;

pub type V3 = [f64; 3];
pub fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn lin(a: V3, s: f64, b: V3) -> V3 {
    [a[0] + s * b[0], a[1] + s * b[1], a[2] + s * b[2]]
}
pub fn cross(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn unit(a: V3) -> V3 {
    let n = dot(a, a).sqrt();
    [a[0] / n, a[1] / n, a[2] / n]
}
pub fn vec_of(lat: f64, lng: f64) -> V3 {
    [lat.cos() * lng.cos(), lat.cos() * lng.sin(), lat.sin()]
}
pub fn latlng_of(v: V3) -> (f64, f64) {
    (v[2].atan2((v[0] * v[0] + v[1] * v[1]).sqrt()), v[1].atan2(v[0]))
}

#[derive(Clone, Copy)]
pub struct Frame {
    pub n: V3,
    pub x: V3,
    pub y: V3,
}
pub struct Geo {
    pub frames: [Frame; 20],
}
#[derive(Clone, Copy, Debug)]
pub struct Query {
    pub f: usize,
    pub p: P,
    pub x: P,
    pub tol: i64,
    /// distance from the face centre, in gnomonic units
    pub r: f64,
}
impl Query {
    pub fn json(&self) -> String {
        format!(
            "\"f\":{},\"p\":[{},{}],\"x\":[{},{}],\"tol\":{}",
            self.f, self.p.0, self.p.1, self.x.0, self.x.1, self.tol
        )
    }
}

/// plane (axial units of res 0) to gnomonic x, y
fn plane(a: f64, b: f64) -> (f64, f64) {
    ((a - 0.5 * b) * RES0_U, b * SQ32 * RES0_U)
}

impl Geo {
    pub fn new(spec: &Spec) -> Geo {
        let (lat, lng) = (0.803582649718989942f64, 1.248397419617396099f64);
        let az = 5.619958268523939882f64; // azimuth of the I axis
        let n = vec_of(lat, lng);
        let north = [-lat.sin() * lng.cos(), -lat.sin() * lng.sin(), lat.cos()];
        let east = [-lng.sin(), lng.cos(), 0.0];
        let mk = |s: f64, c: f64| -> V3 {
            [
                north[0] * c + east[0] * s,
                north[1] * c + east[1] * s,
                north[2] * c + east[2] * s,
            ]
        };
        let x = mk(az.sin(), az.cos());
        let y = cross(n, x); // 90 degrees counter-clockwise, seen from outside
        let f0 = Frame { n, x, y };
        let mut done: [Option<Frame>; 20] = [None; 20];
        done[0] = Some(f0);
        let mut queue = vec![0usize];
        while let Some(f) = queue.pop() {
            let fr = done[f].unwrap();
            for e in 0..3 {
                let g = spec.gluing[f][e].0;
                if done[g].is_some() {
                    continue;
                }
                // the shared edge's corners and an inner point fix the frame:
                // the two corners in both planes, on the sphere
                let corners: Vec<usize> = (0..3).filter(|m| crate::mirror::edge_form(e, crate::mirror::corner_pt(*m, 1)) == 2).collect();
                let mut src = vec![];
                for m in corners {
                    let p = crate::mirror::corner_pt(m, 1);
                    let q = spec.fold_pt(f, e, p, 1);
                    src.push((at(&fr, p), q));
                }
                // g's centre is f's mirrored in the edge's plane
                let nn = unit(cross(src[0].0, src[1].0));
                let gn = lin(fr.n, -2.0 * dot(fr.n, nn), nn);
                // x axis of g: from the corner's tangent direction
                let (v, q) = src[0];
                let t = unit(lin(v, -dot(v, gn), gn));
                let (px, py) = plane(q.0 as f64, q.1 as f64);
                let l = (px * px + py * py).sqrt();
                let (cx, sy) = (px / l, py / l);
                // t = cx * X + sy * Y, Y = gn x X
                let s = cross(gn, t);
                let gx = unit([cx * t[0] - sy * s[0], cx * t[1] - sy * s[1], cx * t[2] - sy * s[2]]);
                let gy = cross(gn, gx);
                let gf = Frame { n: gn, x: gx, y: gy };
                let (v1, q1) = src[1];
                let w1 = at(&gf, q1);
                assert!(dot(lin(v1, -1.0, w1), lin(v1, -1.0, w1)) < 1e-24, "face {} does not close", g);
                done[g] = Some(gf);
                queue.push(g);
            }
        }
        let mut frames = [f0; 20];
        for f in 0..20 {
            frames[f] = done[f].unwrap();
        }
        Geo { frames }
    }
    /// the point of face f's plane at (a, b), in units of resolution 0
    pub fn point(&self, f: usize, a: f64, b: f64) -> (f64, f64) {
        let fr = &self.frames[f];
        let (x, y) = plane(a, b);
        latlng_of(unit(lin(lin(fr.n, x, fr.x), y, fr.y)))
    }
    /// the same point as a unit vector
    pub fn vec(&self, f: usize, a: f64, b: f64) -> V3 {
        let fr = &self.frames[f];
        let (x, y) = plane(a, b);
        unit(lin(lin(fr.n, x, fr.x), y, fr.y))
    }
    pub fn query(&self, lat: f64, lng: f64, res: usize) -> Query {
        if !lat.is_finite() || !lng.is_finite() {
            return Query { f: 0, p: (900, 900), x: (0, 0), tol: 0, r: 0.0 };
        }
        let v = vec_of(lat, lng);
        let mut f = 0;
        let mut best = -2.0;
        for g in 0..20 {
            let d = dot(v, self.frames[g].n);
            if d > best {
                best = d;
                f = g;
            }
        }
        let fr = &self.frames[f];
        let (x, y) = (dot(v, fr.x) / best, dot(v, fr.y) / best);
        let s = scale_of(res) as f64;
        let u = RES0_U / s;
        let b = y / SQ32 / u;
        let a = x / u + b / 2.0;
        let (ia, ib) = (a.floor(), b.floor());
        let r = (x * x + y * y).sqrt();
        // the library's own floating-point accuracy: the angle from the face
        // centre comes from an arc cosine, latitudes from an arc sine
        let eps = 2.3e-16;
        let coslat = lat.cos().abs().max(1e-9);
        let err = 8.0 * eps / r.max(1e-9) + 8.0 * eps / coslat + 4e-15;
        let tol = (err / u * FRAC as f64).ceil().min(1.0e6) as i64 + 2;
        Query {
            f,
            p: (ia as i64, ib as i64),
            x: (((a - ia) * FRAC as f64).round() as i64, ((b - ib) * FRAC as f64).round() as i64),
            tol,
            r,
        }
    }
}
pub fn gap2(a: V3, b: V3) -> f64 {
    let d = lin(a, -1.0, b);
    dot(d, d)
}
fn at(fr: &Frame, p: P) -> V3 {
    let (x, y) = plane(p.0 as f64, p.1 as f64);
    unit(lin(lin(fr.n, x, fr.x), y, fr.y))
}
