//! One recorded call of the library: what is called, with what, and what it
//! answered.  `exec` is the only place where the code under test is entered.
use crate::mirror::{fields, scale_of, Fields};
use h3_rs::algos::*;
use h3_rs::base_cells::{getRes0Cells, res0CellCount};
use h3_rs::directed_edge::*;
use h3_rs::error::Error;
use h3_rs::h3_index::*;
use h3_rs::iterators::IterCellsChildren;
use h3_rs::lat_lng::*;
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum Op {
    Valid,
    Get,
    Put,
    Fresh,
    Pent,
    Res0,
    Res0Count,
    Encode,
    Locate,
    Centre,
    CentreOf,
    Back,
    Children,
    Succ,
    Size,
    ChildPos,
    Neighbor,
    Heading,
    Around,
    DirTo,
    Disk,
    FastDisk,
    FastRing,
    WideRing,
    Bound,
    Edge,
    EdgeValid,
    EdgeOrigin,
    EdgeDest,
    EdgeCells,
    Edges,
    Any,
    Lng,
    Degs,
    Almost,
    AlmostStd,
    AlmostReal,
    Iter,
    Next,
    Walk,
    Step,
    Nth,
    FarRing,
    FarDisk,
    Len,
    At,
    Go,
    Address,
    NameOf,
    BaseAt,
    BaseNb,
    BaseIs,
    CwOff,
    Turn,
    Zero,
    Lead,
    HasKids,
    Count,
    PosValid,
    Class3,
    Travel,
    Azimuth,
    PosAngle,
    Vec,
    SqDist,
    Mag,
    Lat,
    Unfold,
    Jump,
    Left,
    Last,
    Hint,
    Least,
    Rest,
}
/// in the order of their numbers
pub const OPS: [Op; 74] = [
    Op::Valid, Op::Get, Op::Put, Op::Fresh, Op::Pent, Op::Res0, Op::Res0Count, Op::Encode, Op::Locate,
    Op::Centre, Op::CentreOf, Op::Back, Op::Children, Op::Succ, Op::Size, Op::ChildPos, Op::Neighbor, Op::Heading,
    Op::Around, Op::DirTo, Op::Disk, Op::FastDisk, Op::FastRing, Op::WideRing, Op::Bound, Op::Edge, Op::EdgeValid,
    Op::EdgeOrigin, Op::EdgeDest, Op::EdgeCells, Op::Edges, Op::Any, Op::Lng, Op::Degs, Op::Almost, Op::AlmostStd,
    Op::AlmostReal, Op::Iter, Op::Next, Op::Walk, Op::Step, Op::Nth, Op::FarRing, Op::FarDisk, Op::Len,
    Op::At, Op::Go, Op::Address, Op::NameOf, Op::BaseAt, Op::BaseNb, Op::BaseIs, Op::CwOff, Op::Turn,
    Op::Zero, Op::Lead, Op::HasKids, Op::Count, Op::PosValid, Op::Class3, Op::Travel, Op::Azimuth, Op::PosAngle,
    Op::Vec, Op::SqDist, Op::Mag, Op::Lat, Op::Unfold, Op::Jump, Op::Left, Op::Last, Op::Hint,
    Op::Least, Op::Rest,
];

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Call {
    pub op: Op,
    pub w: u64,
    pub z: u64,
    pub a: i64,
    pub b: i64,
    pub c: i64,
}
impl Call {
    pub fn new(op: Op, w: u64, z: u64, a: i64, b: i64, c: i64) -> Call {
        Call { op, w, z, a, b, c }
    }
    pub fn w(op: Op, w: u64) -> Call {
        Call::new(op, w, 0, 0, 0, 0)
    }
    pub fn wa(op: Op, w: u64, a: i64) -> Call {
        Call::new(op, w, 0, a, 0, 0)
    }
    pub fn wz(op: Op, w: u64, z: u64) -> Call {
        Call::new(op, w, z, 0, 0, 0)
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0x9E37_79B9_7F4A_7C15u64 ^ (self.op as u64);
        for x in [self.w, self.z, self.a as u64, self.b as u64, self.c as u64] {
            h ^= x;
            h = (h ^ (h >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            h = (h ^ (h >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            h ^= h >> 31;
        }
        h
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    Unit,
    Bool(bool),
    Int(i64),
    Big(i128),
    Word(u64),
    WordRot(u64, i64),
    Words(Vec<u64>),
    Pairs(Vec<(u64, u32)>),
    Floats(f64, f64),
    Ints(Vec<i64>),
    Reals(Vec<f64>),
}
#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    Ok(Val),
    Err(String),
    /// iterator: a value, or the end
    Some(u64),
    End,
    Panic(String),
    Abort,
    Hang,
}

/// the library's direction values, obtained through its accessor
pub struct Dirs;
fn dir_word(r: i32, d: u64) -> u64 {
    (1u64 << 59) | (15u64 << 52) | (d << (3 * (15 - r as u64)))
}
macro_rules! dir {
    ($d:expr) => {{
        let d = $d as u64;
        let mut got = H3_GET_INDEX_DIGIT(dir_word(1, d), 1);
        let mut r = 1;
        while got as i32 as u64 != d && r < 15 {
            r += 1;
            got = H3_GET_INDEX_DIGIT(dir_word(r, d), r);
        }
        got
    }};
}

fn e2s<T>(r: Result<T, Error>, f: impl FnOnce(T) -> Val) -> Out {
    match r {
        Ok(v) => Out::Ok(f(v)),
        Err(e) => Out::Err(format!("{:?}", e)),
    }
}
pub fn ll(w: u64, z: u64) -> LatLng {
    LatLng { lat: f64::from_bits(w), lng: f64::from_bits(z) }
}

/// names of the functions exercised with arbitrary words
pub const ANY: [&str; 20] = [
    "neighbor", "centre", "edgeorigin", "edgedest", "edgecells", "valid", "pent", "size", "childpos",
    "children", "iter", "disk", "fastdisk", "fastring", "dirto", "edge", "edgevalid", "edges", "digits", "resolution",
];

pub const FIELD_NAMES: [&str; 7] = ["high", "mode", "reserved", "res", "base", "digit", "res"];

pub fn lng_of_ticks(t: i64) -> f64 {
    t as f64 / 20_000_000.0 * (2.0 * std::f64::consts::PI)
}
pub fn ticks_of(x: f64) -> f64 {
    x / (2.0 * std::f64::consts::PI) * 20_000_000.0
}
pub const STD_EPS: f64 = 1e-9 * std::f64::consts::PI / 180.0;

fn unpack2(x: i64) -> (i32, i32) {
    ((x >> 32) as i32, x as i32)
}
pub fn pack2(a: i32, b: i32) -> i64 {
    ((a as i64) << 32) | (b as u32 as i64)
}

pub fn exec(k: &Call) -> Out {
    let (w, z, a, b, c) = (k.w, k.z, k.a, k.b, k.c);
    match k.op {
        Op::Valid => Out::Ok(Val::Bool(isValidCell(w))),
        Op::Get => Out::Ok(Val::Int(match a {
            0 => H3_GET_HIGH_BIT(w) as i64,
            1 => H3_GET_MODE(w) as i64,
            2 => H3_GET_RESERVED_BITS(w) as i64,
            3 => H3_GET_RESOLUTION(w) as i64,
            4 => H3_GET_BASE_CELL(w) as i64,
            5 => H3_GET_INDEX_DIGIT(w, b as i32) as i64,
            _ => getResolution(w) as i64,
        })),
        Op::Put => {
            let mut h = w;
            match a {
                0 => H3_SET_HIGH_BIT(&mut h, c as i32),
                1 => H3_SET_MODE(&mut h, c as i32),
                2 => H3_SET_RESERVED_BITS(&mut h, c as i32),
                3 => H3_SET_RESOLUTION(&mut h, c as i32),
                4 => H3_SET_BASE_CELL(&mut h, c as i32),
                _ => H3_SET_INDEX_DIGIT(&mut h, b as i32, c as i32),
            }
            Out::Ok(Val::Word(h))
        }
        Op::Fresh => {
            let mut h = w;
            setH3Index(&mut h, a as i32, b as i32, c as i32);
            Out::Ok(Val::Word(h))
        }
        Op::Pent => Out::Ok(Val::Bool(isPentagon(w))),
        Op::Res0 => e2s(getRes0Cells(), Val::Words),
        Op::Res0Count => Out::Ok(Val::Int(res0CellCount() as i64)),
        Op::Encode | Op::Locate => e2s(latLngToCell(&ll(w, z), a as i32), Val::Word),
        Op::Centre => e2s(cellToLatLng(w), |g| Val::Floats(g.lat, g.lng)),
        Op::CentreOf => e2s(cellToLatLng(z), |g| Val::Floats(g.lat, g.lng)),
        Op::Back => match cellToLatLng(w) {
            Ok(g) => e2s(latLngToCell(&g, a as i32), Val::Word),
            Err(e) => Out::Err(format!("{:?}", e)),
        },
        // by the list, or by one of an iterator's methods
        Op::Children if b > 0 => Out::Ok(Val::Words(all_of(IterCellsChildren::from_parent(w, a as i32), b as usize))),
        Op::Children => e2s(cellToChildren(w, a as i32), Val::Words),
        Op::Size => e2s(cellToChildrenSize(w, a as i32), |n| Val::Big(n as i128)),
        Op::ChildPos => e2s(childPosToCell(b, w, a as i32), Val::Word),
        Op::Neighbor | Op::Heading | Op::Step => {
            let mut rot = b as i32;
            let r = h3NeighborRotations(w, dir!(a), &mut rot);
            e2s(r, |n| Val::WordRot(n, rot as i64))
        }
        Op::Around => {
            let mut v = vec![];
            let mut extra = None;
            for d in 1..7i64 {
                let mut rot = 0;
                match h3NeighborRotations(w, dir!(d), &mut rot) {
                    // a = 1: the origin is a pentagon, direction 1 leads nowhere
                    Ok(n) => {
                        if !(a == 1 && d == 1) && !v.contains(&n) {
                            v.push(n)
                        }
                    }
                    Err(e) => {
                        if !(a == 1 && d == 1) {
                            extra = Some(format!("{:?}", e))
                        }
                    }
                }
            }
            match extra {
                None => Out::Ok(Val::Words(v)),
                Some(e) => Out::Err(e),
            }
        }
        Op::DirTo => Out::Ok(Val::Int(directionForNeighbor(w, z) as i64)),
        Op::Disk => e2s(gridDiskDistances(w, a as u32), Val::Pairs),
        Op::FastDisk | Op::FarDisk => e2s(gridDiskDistancesUnsafe(w, a as u32), Val::Pairs),
        Op::FastRing | Op::WideRing | Op::FarRing => e2s(gridRingUnsafe(w, a as u32), Val::Words),
        Op::Bound => Out::Ok(Val::Big(maxGridDiskSize(a as u32) as i128)),
        Op::Edge => e2s(cellsToDirectedEdge(w, z), Val::Word),
        Op::EdgeValid => Out::Ok(Val::Bool(isValidDirectedEdge(w))),
        Op::EdgeOrigin => e2s(getDirectedEdgeOrigin(w), Val::Word),
        Op::EdgeDest => e2s(getDirectedEdgeDestination(w), Val::Word),
        Op::EdgeCells => e2s(directedEdgeToCells(w), |p| Val::Words(vec![p.0, p.1])),
        Op::Edges => Out::Ok(Val::Words(originToDirectedEdges(w).to_vec())),
        Op::Any => any(a as usize, w, z, b, c),
        Op::Lng => {
            let y = constrainLng(f64::from_bits(w));
            Out::Ok(Val::Floats(y, 0.0))
        }
        Op::Lat => Out::Ok(Val::Floats(constrainLat(f64::from_bits(w)), 0.0)),
        Op::Degs => {
            let mut g = LatLng { lat: 7.0, lng: 8.0 };
            setGeoDegs(&mut g, a as f64 / 1000.0, b as f64 / 1000.0);
            Out::Ok(Val::Floats(g.lat, g.lng))
        }
        Op::Almost => {
            let u = 1.0 / 1048576.0;
            let ((p1, p2), (q1, q2)) = (unpack2(a), unpack2(b));
            let p = LatLng { lat: p1 as f64 * u, lng: p2 as f64 * u };
            let q = LatLng { lat: q1 as f64 * u, lng: q2 as f64 * u };
            Out::Ok(Val::Bool(geoAlmostEqualThreshold(&p, &q, c as f64 * u)))
        }
        Op::AlmostStd => {
            let u = STD_EPS / 8.0;
            let ((p1, p2), (q1, q2)) = (unpack2(a), unpack2(b));
            let p = LatLng { lat: p1 as f64 * u, lng: p2 as f64 * u };
            let q = LatLng { lat: q1 as f64 * u, lng: q2 as f64 * u };
            Out::Ok(Val::Bool(geoAlmostEqual(&p, &q)))
        }
        // any two points
        Op::AlmostReal => Out::Ok(Val::Bool(geoAlmostEqual(&ll(w, z), &ll(a as u64, b as u64)))),
        Op::Succ => {
            // b steps into the iteration, then one more
            let mut it = IterCellsChildren::from_parent(w, a as i32);
            for _ in 0..b {
                if it.next().is_none() {
                    return Out::End;
                }
            }
            match it.next() {
                Some(x) => Out::Some(x),
                None => Out::End,
            }
        }
        // b = 1: the whole iteration
        Op::Iter => {
            let mut it = IterCellsChildren::from_parent(w, a as i32);
            if b == 1 {
                let mut n = 0u64;
                while it.next().is_some() && n < 100_000_000 {
                    n += 1
                }
                it.next();
            }
            Out::Ok(Val::Unit)
        }
        // element b of the list of children (b < 0: all, for its time)
        Op::Nth => match cellToChildren(w, a as i32) {
            Err(e) => Out::Err(format!("{:?}", e)),
            Ok(v) => match v.get(b.max(0) as usize) {
                Some(x) => Out::Some(*x),
                None => Out::End,
            },
        },
        Op::Next | Op::Jump | Op::Left | Op::Last | Op::Hint | Op::Least | Op::Rest | Op::Walk | Op::Len | Op::At | Op::Go => Out::Ok(Val::Unit),
        _ => inner::exec(k),
    }
}

/// all that an iterator has still to yield, by one of its methods
pub const WAYS: usize = 16;
pub fn all_of(mut it: IterCellsChildren, how: usize) -> Vec<u64> {
    let mut v = vec![];
    match how % WAYS {
        0 => {
            for x in it.by_ref() {
                v.push(x);
            }
        }
        1 => {
            v = it.fold(v, |mut v, x| {
                v.push(x);
                v
            })
        }
        2 => it.for_each(|x| v.push(x)),
        3 => v = it.collect(),
        4 => v = it.partition(|_| true).0,
        5 => v.extend(it),
        6 => {
            it.all(|x| {
                v.push(x);
                true
            });
        }
        7 => {
            it.any(|x| {
                v.push(x);
                false
            });
        }
        8 => {
            it.find(|x| {
                v.push(*x);
                false
            });
        }
        9 => {
            it.position(|x| {
                v.push(x);
                false
            });
        }
        10 => {
            it.try_for_each(|x| {
                v.push(x);
                Some(())
            });
        }
        11 => {
            let all: Result<Vec<u64>, ()> = it.try_fold(v, |mut v, x| {
                v.push(x);
                Ok(v)
            });
            v = all.unwrap();
        }
        12 => {
            let last = it.reduce(|a, x| {
                v.push(a);
                x
            });
            v.extend(last);
        }
        13 => {
            it.find_map(|x| {
                v.push(x);
                None::<()>
            });
        }
        14 => {
            it.max_by_key(|x| {
                v.push(*x);
                *x
            });
        }
        _ => {
            let w: Vec<u64> = it.collect();
            // those at even places, and those between
            for x in w.iter().step_by(2) {
                v.push(*x);
            }
            v.extend(w.iter().skip(1).step_by(2));
            v.sort();
        }
    }
    v
}

/// a difference in eighths of the standard threshold, as far as TLC can count
pub fn eighths(x: f64) -> i64 {
    (x.abs() / (STD_EPS / 8.0)).floor().min(1e9) as i64
}
/// axial coordinates as ijk+
pub fn to_ijk(p: (i64, i64)) -> [i64; 3] {
    let m = p.0.min(p.1).min(0);
    [p.0 - m, p.1 - m, -m]
}
pub fn bits(x: i64) -> f64 {
    f64::from_bits(x as u64)
}

#[cfg(not(feature = "inner"))]
mod inner {
    pub fn exec(_: &super::Call) -> super::Out {
        panic!("harness: built without the inner calls")
    }
}
#[cfg(feature = "inner")]
mod inner {
    use super::*;
    use h3_rs::base_cells::*;
    use h3_rs::vec2d::*;
    use h3_rs::vec3d::*;

    fn vec3(g: &LatLng) -> Vec3d {
        let mut v = Vec3d { x: 9.0, y: 9.0, z: 9.0 };
        _geoToVec3d(g, &mut v);
        v
    }
    pub fn exec(k: &Call) -> Out {
        let (w, z, a, b, c) = (k.w, k.z, k.a, k.b, k.c);
        let ok = |v: Val| Out::Ok(v);
        match k.op {
            Op::Address => e2s(_h3ToFaceIjk(w), |f| {
                Val::Ints(vec![f.face as i64, f.coord.i as i64, f.coord.j as i64, f.coord.k as i64])
            }),
            Op::NameOf => {
                let (x, y) = unpack2(b);
                let t = to_ijk((x as i64, y as i64));
                let mut f = baseCellData[0].homeFijk;
                f.face = a as i32;
                f.coord.i = t[0] as i32;
                f.coord.j = t[1] as i32;
                f.coord.k = t[2] as i32;
                ok(Val::Word(_faceIjkToH3(&f, c as i32)))
            }
            Op::Unfold => {
                let (x, y) = unpack2(b);
                let t = to_ijk((x as i64, y as i64));
                let mut f = baseCellData[0].homeFijk;
                f.face = a as i32;
                f.coord.i = t[0] as i32;
                f.coord.j = t[1] as i32;
                f.coord.k = t[2] as i32;
                let more = _h3ToFaceIjkWithInitializedFijk(w, &mut f);
                ok(Val::Ints(vec![more as i64, f.face as i64, f.coord.i as i64, f.coord.j as i64, f.coord.k as i64]))
            }
            Op::BaseAt => {
                let mut f = baseCellData[0].homeFijk;
                f.face = a as i32;
                f.coord.i = (b / 9) as i32;
                f.coord.j = (b / 3 % 3) as i32;
                f.coord.k = (b % 3) as i32;
                ok(Val::Ints(vec![_faceIjkToBaseCell(&f) as i64, _faceIjkToBaseCellCCWrot60(&f) as i64]))
            }
            Op::BaseNb => {
                ok(Val::Ints(vec![baseCellNeighbors[a as usize][b as usize] as i64, baseCellNeighbor60CCWRots[a as usize][b as usize] as i64]))
            }
            Op::BaseIs => ok(Val::Ints(vec![_isBaseCellPentagon(a as i32) as i64, _isBaseCellPolarPentagon(a as i32) as i64])),
            Op::CwOff => ok(Val::Bool(_baseCellIsCwOffset(a as i32, b as i32))),
            Op::Turn => ok(Val::Word(match a {
                0 => _h3Rotate60ccw(w),
                1 => _h3Rotate60cw(w),
                2 => _h3RotatePent60ccw(w),
                _ => _h3RotatePent60cw(w),
            })),
            Op::Zero => ok(Val::Word(_zeroIndexDigits(w, a as i32, b as i32))),
            Op::Lead => ok(Val::Int(_h3LeadingNonZeroDigit(w) as i64)),
            // a child iterator's digits after c increments at place b, and its next child
            Op::Count => {
                let mut it = IterCellsChildren::from_parent(w, a as i32);
                for _ in 0..c {
                    it._incrementResDigit(b as i32);
                }
                let read = (1..=15).fold(0, |v, i| v << 3 | it._getResDigit(i) as u64);
                ok(Val::Words(vec![read, it.next().unwrap_or(0)]))
            }
            Op::HasKids => ok(Val::Bool(_hasChildAtRes(w, a as i32))),
            Op::PosValid => e2s(validateChildPos(b, w, a as i32), |_| Val::Unit),
            Op::Class3 => ok(Val::Bool(isResolutionClassIII(a as i32))),
            Op::Travel => {
                let g = _geoAzDistanceRads(&ll(w, z), bits(a), bits(b));
                ok(Val::Floats(g.lat, g.lng))
            }
            Op::Azimuth => ok(Val::Reals(vec![_geoAzimuthRads(&ll(w, z), &ll(a as u64, b as u64))])),
            Op::PosAngle => ok(Val::Reals(vec![_posAngleRads(f64::from_bits(w))])),
            Op::Vec => {
                let v = vec3(&ll(w, z));
                ok(Val::Reals(vec![v.x, v.y, v.z]))
            }
            Op::SqDist => ok(Val::Reals(vec![_pointSquareDist(vec3(&ll(w, z)), vec3(&ll(a as u64, b as u64)))])),
            Op::Mag => ok(Val::Reals(vec![_v2dMag(&Vec2d { x: a as f64, y: b as f64 }), c as f64])),
            _ => panic!("harness: no such call"),
        }
    }
}


fn any(which: usize, w: u64, z: u64, b: i64, c: i64) -> Out {
    let unit = |_: ()| Val::Unit;
    match ANY[which] {
        "neighbor" => {
            let mut rot = (c as i32).rem_euclid(6);
            e2s(h3NeighborRotations(w, dir!(b.rem_euclid(7)), &mut rot).map(|_| ()), unit)
        }
        "centre" => e2s(cellToLatLng(w).map(|_| ()), unit),
        "edgeorigin" => e2s(getDirectedEdgeOrigin(w).map(|_| ()), unit),
        "edgedest" => e2s(getDirectedEdgeDestination(w).map(|_| ()), unit),
        "edgecells" => e2s(directedEdgeToCells(w).map(|_| ()), unit),
        "valid" => {
            isValidCell(w);
            Out::Ok(Val::Unit)
        }
        "pent" => {
            isPentagon(w);
            Out::Ok(Val::Unit)
        }
        "size" => e2s(cellToChildrenSize(w, b as i32).map(|_| ()), unit),
        "childpos" => e2s(childPosToCell(c, w, b as i32).map(|_| ()), unit),
        "children" => e2s(cellToChildren(w, b as i32).map(|_| ()), unit),
        "iter" => {
            let mut it = IterCellsChildren::from_parent(w, b as i32);
            for _ in 0..(c.rem_euclid(400)) {
                if it.next().is_none() {
                    break;
                }
            }
            Out::Ok(Val::Unit)
        }
        "disk" => e2s(gridDiskDistances(w, b as u32).map(|_| ()), unit),
        "fastdisk" => e2s(gridDiskDistancesUnsafe(w, b as u32).map(|_| ()), unit),
        "fastring" => e2s(gridRingUnsafe(w, b as u32).map(|_| ()), unit),
        "dirto" => {
            directionForNeighbor(w, z);
            Out::Ok(Val::Unit)
        }
        "edge" => e2s(cellsToDirectedEdge(w, z).map(|_| ()), unit),
        "edgevalid" => {
            isValidDirectedEdge(w);
            Out::Ok(Val::Unit)
        }
        "edges" => {
            originToDirectedEdges(w);
            Out::Ok(Val::Unit)
        }
        "digits" => {
            for r in 1..16 {
                let _ = H3_GET_INDEX_DIGIT(w, r);
            }
            Out::Ok(Val::Unit)
        }
        _ => {
            let _ = getResolution(w);
            Out::Ok(Val::Unit)
        }
    }
}

// ---------------------------------------------------------------- JSON ----
pub fn jw(w: u64) -> String {
    let f: Fields = fields(w);
    let mut s = format!("[{},{},{},{},{}", f.hb, f.mode, f.rsv, f.res, f.bc);
    for d in f.ds {
        let _ = write!(s, ",{}", d);
    }
    s.push(']');
    s
}
/// base 7 digits, most significant first
pub fn j7(n: i128) -> (String, bool) {
    let neg = n < 0;
    let mut m = n.unsigned_abs();
    let mut v = vec![];
    while m > 0 {
        v.push((m % 7) as u8);
        m /= 7;
    }
    v.reverse();
    (format!("[{}]", v.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(",")), neg)
}
fn jws(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|w| jw(*w)).collect::<Vec<_>>().join(","))
}
fn jpairs(v: &[(u64, u32)]) -> String {
    format!("[{}]", v.iter().map(|p| format!("[{},{}]", jw(p.0), p.1.min(2_000_000_000))).collect::<Vec<_>>().join(","))
}
fn clampi(x: f64) -> i64 {
    if x.is_nan() {
        2_000_000_000
    } else {
        x.round().clamp(-2.0e9, 2.0e9) as i64
    }
}

/// the outcome part; points are projected by the caller
fn jout(o: &Out) -> String {
    match o {
        Out::Ok(v) => match v {
            Val::Unit => "\"o\":\"ok\"".into(),
            Val::Bool(b) => format!("\"o\":\"ok\",\"v\":{}", b),
            Val::Int(n) => format!("\"o\":\"ok\",\"v\":{}", (*n).clamp(-2_000_000_000, 2_000_000_000)),
            Val::Big(n) => {
                let (s, neg) = j7(*n);
                format!("\"o\":\"ok\",\"v\":{},\"neg\":{}", s, neg)
            }
            Val::Word(w) => format!("\"o\":\"ok\",\"v\":{}", jw(*w)),
            Val::WordRot(w, m) => format!("\"o\":\"ok\",\"v\":{},\"m\":{}", jw(*w), (*m).clamp(-2_000_000_000, 2_000_000_000)),
            Val::Words(v) => format!("\"o\":\"ok\",\"v\":{}", jws(v)),
            Val::Pairs(v) => format!("\"o\":\"ok\",\"v\":{}", jpairs(v)),
            Val::Floats(_, _) | Val::Reals(_) => "\"o\":\"ok\"".into(),
            Val::Ints(v) => format!(
                "\"o\":\"ok\",\"v\":[{}]",
                v.iter().map(|n| n.clamp(&-2_000_000_000, &2_000_000_000).to_string()).collect::<Vec<_>>().join(",")
            ),
        },
        Out::Err(e) => format!("\"o\":\"err\",\"e\":\"{}\"", e),
        Out::Some(w) => format!("\"o\":\"some\",\"v\":{}", jw(*w)),
        Out::End => "\"o\":\"none\"".into(),
        Out::Panic(_) => "\"o\":\"panic\"".into(),
        Out::Abort => "\"o\":\"abort\"".into(),
        Out::Hang => "\"o\":\"hang\"".into(),
    }
}

/// a one-line JSON event, and a human-readable note of the raw values in "raw"
pub fn json(geo: &crate::geo::Geo, spec: &crate::mirror::Spec, k: &Call, o: &Out) -> String {
    let out = jout(o);
    let (a, b, c) = (k.a, k.b, k.c);
    let body = match k.op {
        Op::Valid => format!("\"op\":\"valid\",\"w\":{}", jw(k.w)),
        Op::Get => format!("\"op\":\"get\",\"w\":{},\"f\":\"{}\",\"r\":{}", jw(k.w), FIELD_NAMES[a as usize], b),
        Op::Put => format!("\"op\":\"put\",\"w\":{},\"f\":\"{}\",\"r\":{},\"x\":{}", jw(k.w), FIELD_NAMES[a as usize], b, c),
        Op::Fresh => format!("\"op\":\"fresh\",\"res\":{},\"b\":{},\"d\":{}", a, b, c),
        Op::Pent => format!("\"op\":\"pent\",\"w\":{}", jw(k.w)),
        Op::Res0 => "\"op\":\"res0\"".into(),
        Op::Res0Count => "\"op\":\"res0count\"".into(),
        Op::Encode => {
            let (x, y) = (f64::from_bits(k.w), f64::from_bits(k.z));
            format!("\"op\":\"encode\",\"fin\":{},\"res\":{}", x.is_finite() && y.is_finite(), a)
        }
        Op::Locate => {
            let q = geo.query(f64::from_bits(k.w), f64::from_bits(k.z), a.clamp(0, 15) as usize);
            format!("\"op\":\"locate\",\"res\":{},{}", a, q.json())
        }
        Op::Centre | Op::CentreOf => {
            let (rng, q) = match o {
                Out::Ok(Val::Floats(x, y)) => (
                    x.is_finite() && y.is_finite() && x.abs() <= std::f64::consts::FRAC_PI_2 + crate::sphere::SLACK && y.abs() <= std::f64::consts::PI + crate::sphere::SLACK,
                    geo.query(*x, *y, fields(k.w).res as usize),
                ),
                _ => (false, geo.query(0.0, 0.0, fields(k.w).res as usize)),
            };
            format!("\"op\":\"centre\",\"w\":{},\"rng\":{},{}", jw(k.w), rng, q.json())
        }
        Op::Back => {
            let tol = match spec.cell_of(k.w) {
                Some(_) => 20,
                None => 0,
            };
            format!("\"op\":\"back\",\"w\":{},\"res\":{},\"tol\":{}", jw(k.w), a, tol)
        }
        Op::Children => format!("\"op\":\"children\",\"w\":{},\"res\":{}", jw(k.w), a),
        Op::Size => format!("\"op\":\"size\",\"w\":{},\"res\":{}", jw(k.w), a),
        Op::ChildPos => {
            let (p, neg) = j7(b as i128);
            format!("\"op\":\"childpos\",\"w\":{},\"res\":{},\"pos\":{},\"neg\":{}", jw(k.w), a, p, neg)
        }
        Op::Neighbor => format!("\"op\":\"neighbor\",\"w\":{},\"d\":{},\"n\":{}", jw(k.w), a, b),
        Op::Heading => format!("\"op\":\"heading\",\"w\":{},\"d\":{},\"n\":{}", jw(k.w), a, b),
        Op::Around => format!("\"op\":\"around\",\"w\":{}", jw(k.w)),
        Op::DirTo => format!("\"op\":\"dirto\",\"w\":{},\"z\":{}", jw(k.w), jw(k.z)),
        Op::Disk => format!("\"op\":\"disk\",\"w\":{},\"k\":{}", jw(k.w), a),
        Op::FastDisk => format!("\"op\":\"fastdisk\",\"w\":{},\"k\":{}", jw(k.w), a),
        Op::FastRing => format!("\"op\":\"fastring\",\"w\":{},\"k\":{}", jw(k.w), a),
        Op::WideRing => {
            let (p, _) = j7(a as i128);
            format!("\"op\":\"widering\",\"w\":{},\"k\":{}", jw(k.w), p)
        }
        Op::Bound => format!("\"op\":\"bound\",\"k\":{}", j7(a as i128).0),
        Op::Edge => format!("\"op\":\"edge\",\"w\":{},\"z\":{}", jw(k.w), jw(k.z)),
        Op::EdgeValid => format!("\"op\":\"edgevalid\",\"w\":{}", jw(k.w)),
        Op::EdgeOrigin => format!("\"op\":\"edgeorigin\",\"w\":{}", jw(k.w)),
        Op::EdgeDest => format!("\"op\":\"edgedest\",\"w\":{}", jw(k.w)),
        Op::EdgeCells => format!("\"op\":\"edgecells\",\"w\":{}", jw(k.w)),
        Op::Edges => format!("\"op\":\"edges\",\"w\":{}", jw(k.w)),
        Op::Any => format!("\"op\":\"any\",\"call\":\"{}\",\"w\":{}", ANY[a as usize], jw(k.w)),
        Op::Almost => {
            let ((p1, p2), (q1, q2)) = (unpack2(a), unpack2(b));
            format!("\"op\":\"almost\",\"p\":[{},{}],\"q\":[{},{}],\"t\":{}", p1, p2, q1, q2, c)
        }
        Op::AlmostStd => {
            let ((p1, p2), (q1, q2)) = (unpack2(a), unpack2(b));
            format!("\"op\":\"almost\",\"p\":[{},{}],\"q\":[{},{}],\"t\":8", p1, p2, q1, q2)
        }
        Op::AlmostReal => {
            let (x, y) = (ll(k.w, k.z), ll(a as u64, b as u64));
            format!("\"op\":\"almost\",\"p\":[0,0],\"q\":[{},{}],\"t\":8", eighths(x.lat - y.lat), eighths(x.lng - y.lng))
        }
        Op::Succ => format!("\"op\":\"succ\",\"w\":{},\"z\":{}", jw(k.w), jw(k.z)),
        Op::Iter => format!("\"op\":\"iter\",\"it\":{},\"w\":{},\"res\":{}", k.z, jw(k.w), a),
        Op::Next | Op::Left | Op::Last | Op::Least | Op::Rest => format!("\"op\":\"{}\",\"it\":{}", crate::run::op_name(k.op), k.z),
        Op::Jump => format!("\"op\":\"jump\",\"it\":{},\"n\":{}", k.z, j7(b as i128).0),
        Op::Hint => {
            let (lo, hi) = match o {
                Out::Ok(Val::Ints(v)) => (j7(v[0] as i128).0, if v[1] < 0 { "[-1]".into() } else { j7(v[1] as i128).0 }),
                _ => ("[]".into(), "[]".into()),
            };
            format!("\"op\":\"hint\",\"it\":{},\"lo\":{},\"hi\":{}", k.z, lo, hi)
        }
        Op::Walk => format!("\"op\":\"walk\",\"w\":{},\"n\":{}", jw(k.w), a),
        Op::Step => format!("\"op\":\"step\",\"d\":{}", a),
        Op::Nth => format!("\"op\":\"nth\",\"w\":{},\"res\":{},\"pos\":{}", jw(k.w), a, j7(b as i128).0),
        Op::FarRing => format!("\"op\":\"farring\",\"w\":{},\"k\":{}", jw(k.w), a),
        Op::FarDisk => format!("\"op\":\"fardisk\",\"w\":{},\"k\":{}", jw(k.w), a.min(i32::MAX as i64)),
        Op::Len => format!("\"op\":\"len\",\"k\":{},\"disk\":{}", a, k.w == 1),
        Op::At => format!("\"op\":\"at\",\"w\":{}", jw(k.w)),
        Op::Go => format!("\"op\":\"go\",\"d\":{}", a),
        Op::Address => format!("\"op\":\"address\",\"w\":{}", jw(k.w)),
        Op::NameOf => {
            let (x, y) = unpack2(b);
            format!("\"op\":\"nameof\",\"f\":{},\"p\":[{},{}],\"res\":{}", a, x, y, c)
        }
        Op::Unfold => {
            let (x, y) = unpack2(b);
            format!("\"op\":\"unfold\",\"w\":{},\"f\":{},\"p\":[{},{}]", jw(k.w), a, x, y)
        }
        Op::BaseAt => format!("\"op\":\"baseat\",\"f\":{},\"t\":[{},{},{}]", a, b / 9, b / 3 % 3, b % 3),
        Op::BaseNb => format!("\"op\":\"basenb\",\"b\":{},\"d\":{}", a, b),
        Op::BaseIs => format!("\"op\":\"baseis\",\"b\":{}", a),
        Op::CwOff => format!("\"op\":\"cwoff\",\"b\":{},\"f\":{}", a, b),
        Op::Turn => format!("\"op\":\"turn\",\"w\":{},\"n\":{},\"pent\":{}", jw(k.w), if a % 2 == 0 { 1 } else { 5 }, a >= 2),
        Op::Zero => format!("\"op\":\"zero\",\"w\":{},\"from\":{},\"to\":{}", jw(k.w), a, b),
        Op::Lead => format!("\"op\":\"lead\",\"w\":{}", jw(k.w)),
        Op::HasKids => format!("\"op\":\"haskids\",\"w\":{},\"res\":{}", jw(k.w), a),
        Op::Count => format!("\"op\":\"count\",\"w\":{},\"res\":{},\"at\":{},\"n\":{}", jw(k.w), a, b, c),
        Op::PosValid => {
            let (p, neg) = j7(b as i128);
            format!("\"op\":\"posvalid\",\"w\":{},\"res\":{},\"pos\":{},\"neg\":{}", jw(k.w), a, p, neg)
        }
        Op::Class3 => format!("\"op\":\"class3\",\"res\":{}", a),
        Op::Lng | Op::Lat | Op::Degs | Op::Travel | Op::Azimuth | Op::PosAngle | Op::Vec | Op::SqDist | Op::Mag => {
            let m = crate::sphere::measure(k, o);
            format!(
                "\"op\":\"{}\",\"rng\":{},\"x\":{:?},\"v\":{:?},\"tol\":{},\"dev\":{},\"most\":{}",
                crate::run::op_name(k.op), m.rng, m.x, m.v, m.tol, m.dev, m.most
            )
        }
    };
    format!("{{{},{},\"raw\":\"{}\"}}", body, out, raw(k, o))
}

pub fn raw(k: &Call, o: &Out) -> String {
    let mut s = match k.op {
        Op::Encode | Op::Locate => format!(
            "{:?} lat={:e} lng={:e} res={}",
            k.op,
            f64::from_bits(k.w),
            f64::from_bits(k.z),
            k.a
        ),
        Op::Any => format!("{} w={:#x} z={:#x} b={} c={}", ANY[k.a as usize], k.w, k.z, k.b, k.c),
        _ => format!("{:?} w={:#x} z={:#x} a={} b={} c={}", k.op, k.w, k.z, k.a, k.b, k.c),
    };
    let t = match o {
        Out::Ok(Val::Word(w)) => format!("{:#x}", w),
        Out::Ok(Val::WordRot(w, m)) => format!("{:#x} rot {}", w, m),
        Out::Ok(Val::Words(v)) => format!("{} words {:x?}", v.len(), &v[..v.len().min(8)]),
        Out::Ok(Val::Pairs(v)) => format!("{} cells {:x?}", v.len(), &v[..v.len().min(8)]),
        _ => format!("{:x?}", o),
    };
    let _ = write!(s, " -> {}", t);
    s.chars().map(|c| if c == '"' || c == '\\' || (c as u32) < 32 || (c as u32) > 126 { '\'' } else { c }).collect()
}

pub fn unit_gnomonic(r: usize) -> f64 {
    crate::geo::RES0_U / scale_of(r) as f64
}
