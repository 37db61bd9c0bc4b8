//! Measuring what the helpers of spherical geometry answer, in integers for
//! the specification: directions and distances are taken from 3D vectors.
use crate::call::*;
use crate::geo::{cross, dot, gap2, latlng_of, lin, unit, vec_of, V3};
use std::f64::consts::PI;

pub struct Measure {
    pub rng: bool,
    /// what was asked or is expected
    pub x: Vec<i64>,
    /// what was answered
    pub v: Vec<i64>,
    pub tol: i64,
    /// what is left between the two in fine units, and how much may be
    pub dev: i64,
    pub most: i64,
}
fn int(x: f64) -> i64 {
    if x.is_nan() {
        2_000_000_000
    } else {
        x.round().clamp(-2.0e9, 2.0e9) as i64
    }
}
fn north_east(lat: f64, lng: f64) -> (V3, V3) {
    ([-lat.sin() * lng.cos(), -lat.sin() * lng.sin(), lat.cos()], [-lng.sin(), lng.cos(), 0.0])
}
/// where azimuth and distance lead
pub fn destination(lat: f64, lng: f64, az: f64, d: f64) -> V3 {
    let v = vec_of(lat, lng);
    let (n, e) = north_east(lat, lng);
    let t = lin([n[0] * az.cos(), n[1] * az.cos(), n[2] * az.cos()], az.sin(), e);
    unit(lin([v[0] * d.cos(), v[1] * d.cos(), v[2] * d.cos()], d.sin(), t))
}
pub fn azimuth(p: (f64, f64), q: (f64, f64)) -> f64 {
    let (n, e) = north_east(p.0, p.1);
    let w = vec_of(q.0, q.1);
    dot(w, e).atan2(dot(w, n))
}
pub fn cos_lat(v: V3) -> f64 {
    (v[0] * v[0] + v[1] * v[1]).sqrt()
}
/// sine of the angle between two points: small near each other and near the antipode
pub fn apart(a: V3, b: V3) -> f64 {
    let c = cross(a, b);
    dot(c, c).sqrt()
}
/// 1e-12 of a radian
pub const FINE: f64 = 1e12;
/// of a turn
pub const TURN: f64 = 2.0e9;

/// x - y without whole periods, in 1e-16, and how much rounding may leave
fn left_over(x: f64, y: f64, period: f64) -> (i64, i64) {
    let n = ((x - y) / period).round();
    (int(((x - y) - n * period).abs() * 1e16), int(4.0 * (1.0 + x.abs()) * (2.0 + n.abs())))
}
/// how far rounding may lead out of a range
pub const SLACK: f64 = 1e-12;
pub fn measure(k: &Call, o: &Out) -> Measure {
    let got: Vec<f64> = match o {
        Out::Ok(Val::Reals(v)) => v.clone(),
        Out::Ok(Val::Floats(x, y)) => vec![*x, *y],
        _ => vec![f64::NAN; 3],
    };
    let fin = got.iter().all(|x| x.is_finite());
    let (w, z) = (f64::from_bits(k.w), f64::from_bits(k.z));
    let eps = 2.3e-16;
    let rel = |got: f64, want: f64| int((got - want).abs() / (want.abs() + 1e-300) * 1e16);
    match k.op {
        Op::Lng | Op::Lat | Op::PosAngle => {
            let (period, lo, hi) = match k.op {
                Op::Lng => (2.0 * PI, -PI, PI),
                Op::Lat => (PI, -PI / 2.0, PI / 2.0),
                _ => (2.0 * PI, 0.0, 2.0 * PI),
            };
            let (dev, most) = left_over(w, got[0], period);
            let slack = (most as f64 * 1e-16).max(SLACK);
            Measure { rng: fin && got[0] >= lo - slack && got[0] <= hi + slack, x: vec![int(ticks_of(w))], v: vec![int(ticks_of(got[0]))], tol: 4, dev, most }
        }
        Op::Degs => {
            let (a, b) = ((k.a as f64 / 1000.0).to_radians(), (k.b as f64 / 1000.0).to_radians());
            let t = |x: f64| int(ticks_of(x).clamp(-1e8, 1e8));
            let dev = rel(got[0], a).max(rel(got[1], b));
            Measure { rng: fin, x: vec![k.a, k.b], v: vec![t(got[0]), t(got[1])], tol: 18, dev, most: 12 }
        }
        Op::Travel => {
            let (az, d) = (bits(k.a), bits(k.b));
            let want = destination(w, z, az, d);
            let gap = if fin { gap2(want, vec_of(got[0], got[1])).sqrt() } else { f64::NAN };
            let rng = fin && (got[1].abs() <= PI + SLACK || got[1] == z);
            let err = 16.0 * eps * (1.0 / w.cos().abs() + 1.0 / cos_lat(want).max(1e-8)) + 2e-14;
            Measure { rng, x: vec![], v: vec![int(gap * FINE)], tol: int(err * FINE).max(1), dev: 0, most: 0 }
        }
        Op::Azimuth => {
            let q = (bits(k.a), bits(k.b));
            let want = azimuth((w, z), q);
            let err = 16.0 * eps / apart(vec_of(w, z), vec_of(q.0, q.1)).max(1e-12) + 1e-14;
            let d = (got[0] - want).abs();
            Measure {
                rng: fin && got[0].abs() <= PI + SLACK,
                x: vec![int(want / (2.0 * PI) * TURN)],
                v: vec![int(got[0] / (2.0 * PI) * TURN)],
                tol: int((err / (2.0 * PI) * TURN).ceil()) + 2,
                dev: int(d.min((2.0 * PI - d).abs()) * 1e14),
                most: int(err * 1e14).max(2),
            }
        }
        Op::Vec => {
            let v = vec_of(w, z);
            let dev = (0..3).map(|i| int((v[i] - got[i]).abs() * 1e16)).max().unwrap();
            Measure { rng: fin, x: v.iter().map(|x| int(x * 1e9)).collect(), v: got.iter().map(|x| int(x * 1e9)).collect(), tol: 1, dev, most: 20 }
        }
        Op::SqDist => {
            let d = gap2(vec_of(w, z), vec_of(bits(k.a), bits(k.b)));
            let dev = if d > 1e-20 { int((got[0] / d - 1.0).abs() * 1e15) } else { int(got[0] * 1e20) };
            Measure { rng: fin, x: vec![int(d * 4e8)], v: vec![int(got[0] * 4e8)], tol: 1, dev, most: if d > 1e-20 { int(2.0 / d.sqrt()) + 20 } else { 2 } }
        }
        _ => {
            let want = ((k.a * k.a + k.b * k.b) as f64).sqrt();
            Measure { rng: fin, x: vec![k.a, k.b], v: vec![int(got[0] * 10.0)], tol: 1, dev: rel(got[0], want), most: 12 }
        }
    }
}
pub fn good(k: &Call, o: &Out) -> bool {
    if !matches!(o, Out::Ok(_)) {
        return false;
    }
    let m = measure(k, o);
    let (x, v) = (&m.x, &m.v);
    let turns = |t: i64| {
        let d = (x[0] - v[0]).rem_euclid(t);
        d <= m.tol || d >= t - m.tol
    };
    m.rng
        && m.dev <= m.most
        && match k.op {
            Op::Travel => v[0] <= m.tol,
            Op::Azimuth => turns(2_000_000_000),
            Op::Lng => turns(20_000_000) && (x[0].abs() >= 10_000_000 || (x[0] - v[0]).abs() <= m.tol),
            Op::Lat => turns(10_000_000) && (x[0].abs() >= 5_000_000 || (x[0] - v[0]).abs() <= m.tol),
            Op::PosAngle => turns(20_000_000) && (x[0] <= 0 || x[0] >= 20_000_000 || (x[0] - v[0]).abs() <= m.tol),
            Op::Degs => (0..2).all(|i| (9 * v[i] - 500 * x[i]).abs() <= m.tol),
            Op::Vec | Op::SqDist => x.len() == v.len() && (0..x.len()).all(|i| (x[i] - v[i]).abs() <= m.tol),
            _ => (v[0] * v[0] - 100 * (x[0] * x[0] + x[1] * x[1])).abs() <= v[0] + 1,
        }
}
pub fn spot(v: V3) -> (f64, f64) {
    latlng_of(v)
}
