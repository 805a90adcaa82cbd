use crate::fw::*;
use crate::geo::*;
use crate::num::*;
use crate::rng::Rng;
use magog::planar::primitives::{Position, Segment};
use magog::planar::types::*;
use std::cell::Cell;


macro_rules! dispatch {
    ($f32:expr, $func:ident ( $($a:expr),* $(,)? )) => {
        if $f32 { $func::<f32>($($a),*) } else { $func::<f64>($($a),*) }
    };
}

mod c_all;
mod c_effort;
mod c_index;
mod c_envelope;
mod c_facade;
mod c_hull;
mod c_linear;
mod c_lines;
mod c_meta;
mod c_points;
mod c_polys;
mod c_pure;
mod c_segments;
mod c_total;
mod c_wkt;
pub mod shapes;

pub fn table() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(c_index::props());
    v.extend(c_envelope::props());
    v.extend(c_linear::props());
    v.extend(c_segments::props());
    v.extend(c_lines::props());
    v.extend(c_points::props());
    v.extend(c_polys::props());
    v.extend(c_total::props());
    v.extend(c_meta::props());
    v.extend(c_hull::props());
    v.extend(c_facade::props());
    v.extend(c_wkt::props());
    v.extend(c_effort::props());
    v.extend(c_pure::props());
    v.extend(c_all::props());
    v
}

/// Integer -> coordinate: v * 2^s, optionally with zeros negated at random.
pub struct Conv {
    pub s: i32,
    pub nz: Cell<u64>,
}
impl Conv {
    pub fn plain(s: i32) -> Conv {
        Conv { s, nz: Cell::new(0) }
    }
    pub fn rand<T: Num>(r: &mut Rng) -> Conv {
        let s = match r.below(4) {
            0 | 1 => 0,
            2 => r.range(-8, 8) as i32,
            _ => r.range(-(T::MAX_SCALE as i64), T::MAX_SCALE as i64) as i32,
        };
        Conv { s, nz: Cell::new(if r.chance(1, 4) { r.u64() | 1 } else { 0 }) }
    }
    /// For integers whose products are exact: now and then at the extreme scales.
    pub fn exact<T: Num>(r: &mut Rng) -> Conv {
        let mut cv = Conv::rand::<T>(r);
        if r.chance(1, 12) {
            let (lo, hi) = T::DEEP;
            cv.s = if r.bool() { r.range(lo as i64, hi as i64) as i32 } else { *r.pick(&[lo, hi]) + r.range(0, 3) as i32 * if cv.s < 0 { 1 } else { 0 } };
            cv.s = cv.s.clamp(lo, hi);
        }
        cv
    }
    pub fn c<T: Num>(&self, v: i64) -> T {
        let x: T = scaled(v, self.s);
        if v == 0 && self.nz.get() != 0 {
            let n = self.nz.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            self.nz.set(n | 1);
            if n >> 40 & 1 == 1 {
                return -x;
            }
        }
        x
    }
    pub fn pos<T: Num>(&self, q: P) -> Position<T> {
        Position::new(self.c(q.x), self.c(q.y))
    }
    pub fn seg<T: Num>(&self, a: P, b: P) -> Segment<T> {
        Segment::new(self.pos(a), self.pos(b))
    }
    pub fn poss<T: Num>(&self, v: &[P]) -> Vec<Position<T>> {
        v.iter().map(|q| self.pos(*q)).collect()
    }
    pub fn ls<T: Num>(&self, v: &[P]) -> LineString<T> {
        LineString::new(self.poss(v))
    }
    pub fn mls<T: Num>(&self, v: &[Vec<P>]) -> MultiLineString<T> {
        MultiLineString::new(v.iter().map(|m| self.ls(m)).collect())
    }
    pub fn poly<T: Num>(&self, v: &[Vec<P>]) -> Polygon<T> {
        match v.split_first() {
            None => Polygon::new(LineString::new(vec![]), vec![]),
            Some((e, hs)) => Polygon::new(self.ls(e), hs.iter().map(|h| self.ls(h)).collect()),
        }
    }
    pub fn mpoly<T: Num>(&self, v: &[Poly]) -> MultiPolygon<T> {
        MultiPolygon::new(v.iter().map(|q| self.poly(q)).collect())
    }
    pub fn show(&self) -> String {
        format!("* 2^{}", self.s)
    }
}

pub fn hash_pts(h: &mut H, v: &[P]) {
    h.u(v.len() as u64);
    for q in v {
        h.i(q.x).i(q.y);
    }
}
pub fn hash_ls<T>(tag: u64, v: &[P], s: i32) -> u64 {
    let mut h = H::new(tag);
    h.u(std::mem::size_of::<T>() as u64).i(s as i64);
    hash_pts(&mut h, v);
    h.0
}
pub fn hash_vv<T>(tag: u64, v: &[Vec<P>], s: i32) -> u64 {
    let mut h = H::new(tag);
    h.u(std::mem::size_of::<T>() as u64).i(s as i64).u(v.len() as u64);
    for x in v {
        hash_pts(&mut h, x);
    }
    h.0
}
pub fn show(v: &[P]) -> String {
    let mut s = String::from("[");
    for (i, q) in v.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(&format!("({},{})", q.x, q.y));
        if s.len() > 20000 {
            break;
        }
    }
    s.push(']');
    s
}
pub fn show2(v: &[Vec<P>]) -> String {
    v.iter().map(|x| show(x)).collect::<Vec<_>>().join(" ; ")
}
pub fn show3(v: &[Poly]) -> String {
    v.iter().map(|x| format!("{{{}}}", show2(x))).collect::<Vec<_>>().join(" | ")
}

/// A validity verdict and its is_simple twin must agree with the oracle.
pub fn judge(name: &str, want: bool, why: &str, got: Result<(), &'static str>, simple: bool) -> R {
    if got.is_ok() != want {
        return viol(format!("{}.validate() = {:?}, exact verdict: {} ({})", name, got, if want { "valid" } else { "invalid" }, why));
    }
    if simple != want {
        return viol(format!("{}.is_simple() = {}, validate() = {:?}", name, simple, got));
    }
    Ok(())
}

/// Kind tag, part sizes and coordinate bits (all NaNs alike) of a geometry.
pub fn dump<T: Num>(g: &Geometry<T>) -> Vec<u64> {
    fn pos<T: Num>(o: &mut Vec<u64>, q: &Position<T>) {
        for c in [q.x, q.y] {
            o.push(if c.is_nan() { u64::MAX } else { c.bits() });
        }
    }
    fn ls<T: Num>(o: &mut Vec<u64>, l: &LineString<T>) {
        o.push(l.positions.len() as u64);
        l.positions.iter().for_each(|q| pos(o, q));
    }
    fn poly<T: Num>(o: &mut Vec<u64>, q: &Polygon<T>) {
        o.push(1 + q.interiors.len() as u64);
        ls(o, &q.exterior);
        q.interiors.iter().for_each(|l| ls(o, l));
    }
    let mut o = vec![];
    match g {
        Geometry::Empty(_) => o.push(0),
        Geometry::Point(q) => {
            o.push(1);
            pos(&mut o, &q.0);
        }
        Geometry::LineString(l) => {
            o.push(2);
            ls(&mut o, l);
        }
        Geometry::Polygon(q) => {
            o.push(3);
            poly(&mut o, q);
        }
        Geometry::MultiPoint(m) => {
            o.push(4);
            o.push(m.points.len() as u64);
            m.points.iter().for_each(|q| pos(&mut o, &q.0));
        }
        Geometry::MultiLineString(m) => {
            o.push(5);
            o.push(m.line_strings.len() as u64);
            m.line_strings.iter().for_each(|l| ls(&mut o, l));
        }
        Geometry::MultiPolygon(m) => {
            o.push(6);
            o.push(m.polygons.len() as u64);
            m.polygons.iter().for_each(|q| poly(&mut o, q));
        }
    }
    o
}

/// A geometry as plain lists of coordinates; kinds as in `dump`.
#[derive(Clone, Debug)]
pub struct Model<T> {
    pub kind: u64,
    pub polys: Vec<Vec<Vec<(T, T)>>>,
}
impl<T: Num> Model<T> {
    pub fn dump(&self) -> Vec<u64> {
        let mut o = vec![self.kind];
        let pos = |o: &mut Vec<u64>, q: &(T, T)| {
            for c in [q.0, q.1] {
                o.push(if c.is_nan() { u64::MAX } else { c.bits() });
            }
        };
        let list = |o: &mut Vec<u64>, l: &Vec<(T, T)>| {
            o.push(l.len() as u64);
            l.iter().for_each(|q| pos(o, q));
        };
        match self.kind {
            0 => (),
            1 => pos(&mut o, &self.polys[0][0][0]),
            2 | 4 => list(&mut o, &self.polys[0][0]),
            3 | 5 => {
                o.push(self.polys[0].len() as u64);
                self.polys[0].iter().for_each(|l| list(&mut o, l));
            }
            _ => {
                o.push(self.polys.len() as u64);
                for q in &self.polys {
                    o.push(q.len() as u64);
                    q.iter().for_each(|l| list(&mut o, l));
                }
            }
        }
        o
    }
    pub fn hash(&self, tag: u64) -> u64 {
        let mut h = H::new(tag);
        h.u(std::mem::size_of::<T>() as u64);
        for x in self.dump() {
            h.u(x);
        }
        h.0
    }
    pub fn len(&self) -> usize {
        self.polys.iter().flatten().map(|l| l.len()).sum()
    }
    pub fn is_empty(&self) -> bool {
        match self.kind {
            0 => true,
            1 => false,
            2 | 3 | 4 => self.polys[0][0].is_empty(),
            5 => self.polys[0].iter().all(|l| l.is_empty()),
            _ => self.polys.iter().all(|q| q[0].is_empty()),
        }
    }
    pub fn poss(l: &[(T, T)]) -> Vec<Position<T>> {
        l.iter().map(|c| Position::new(c.0, c.1)).collect()
    }
    pub fn point(&self) -> Point<T> {
        let c = self.polys[0][0][0];
        Point::new(Position::new(c.0, c.1))
    }
    pub fn ls(&self) -> LineString<T> {
        LineString::new(Self::poss(&self.polys[0][0]))
    }
    pub fn mpt(&self) -> MultiPoint<T> {
        MultiPoint::new(Self::poss(&self.polys[0][0]).into_iter().map(Point::new).collect())
    }
    pub fn mls(&self) -> MultiLineString<T> {
        MultiLineString::new(self.polys[0].iter().map(|l| LineString::new(Self::poss(l))).collect())
    }
    fn mk_poly(q: &[Vec<(T, T)>]) -> Polygon<T> {
        Polygon::new(LineString::new(Self::poss(&q[0])), q[1..].iter().map(|l| LineString::new(Self::poss(l))).collect())
    }
    pub fn poly(&self) -> Polygon<T> {
        Self::mk_poly(&self.polys[0])
    }
    pub fn mpoly(&self) -> MultiPolygon<T> {
        MultiPolygon::new(self.polys.iter().map(|q| Self::mk_poly(q)).collect())
    }
    pub fn geom(&self) -> Geometry<T> {
        match self.kind {
            0 => Geometry::Empty(Empty::new()),
            1 => Geometry::Point(self.point()),
            2 => Geometry::LineString(self.ls()),
            3 => Geometry::Polygon(self.poly()),
            4 => Geometry::MultiPoint(self.mpt()),
            5 => Geometry::MultiLineString(self.mls()),
            _ => Geometry::MultiPolygon(self.mpoly()),
        }
    }
    /// Integer parts as coordinates.
    pub fn of(kind: u64, parts: &[Vec<Vec<P>>], cv: &Conv) -> Model<T> {
        let polys = parts
            .iter()
            .map(|q| q.iter().map(|l| l.iter().map(|v| (cv.c(v.x), cv.c(v.y))).collect()).collect())
            .collect();
        Model { kind, polys }
    }
    /// Lattice scenarios of every kind: mostly valid, simple or nearly so.
    pub fn lattice(r: &mut Rng, kind: u64) -> Model<T> {
        let cv = Conv::rand::<T>(r);
        let b = shapes::bound(r, T::BITS).min(1 << (T::BITS - 2));
        let parts: Vec<Vec<Vec<P>>> = match kind {
            0 => vec![],
            1 => vec![vec![vec![crate::gen::pt(r, b)]]],
            2 => {
                let mut v = if r.chance(1, 3) { crate::gen::any_ring(r, b) } else { crate::gen::any_chain(r, b) };
                if r.chance(1, 4) {
                    crate::gen::mutate_chain(r, &mut v, b);
                }
                vec![vec![v]]
            }
            3 => {
                let mut q = shapes::any_poly(r, b);
                if r.chance(1, 4) {
                    shapes::mutate_poly(r, &mut q, b);
                }
                if q.is_empty() {
                    q.push(vec![]);
                }
                vec![q]
            }
            4 => {
                let n = r.size(0, 12);
                vec![vec![(0..n).map(|_| crate::gen::pt(r, b)).collect()]]
            }
            5 => vec![shapes::any_mls(r, b)],
            _ => {
                let mut v = shapes::any_mpoly(r, b);
                for q in v.iter_mut() {
                    if q.is_empty() {
                        q.push(vec![]);
                    }
                }
                v
            }
        };
        let ext = crate::gen::extent(parts.iter().flatten().flatten());
        if ext >= 1 << (T::REAL_BITS - 2) {
            return Model::of(kind, &[vec![vec![p(0, 0)]]], &cv);
        }
        Model::of(kind, &parts, &cv)
    }
    /// Parts of arbitrary coordinates: few values, many coincidences.
    pub fn wild(r: &mut Rng, kind: u64) -> Model<T> {
        let pool: Vec<T> = (0..2 + r.us(4)).map(|_| c_segments::any_value(r)).collect();
        let list = |r: &mut Rng, n: usize| -> Vec<(T, T)> {
            let mut v: Vec<(T, T)> = (0..n).map(|_| (*r.pick(&pool), *r.pick(&pool))).collect();
            if n > 1 && r.chance(1, 3) {
                v[n - 1] = v[0];
            }
            v
        };
        let lists = |r: &mut Rng, lo: usize| -> Vec<Vec<(T, T)>> {
            let n = r.size(lo, 4);
            (0..n)
                .map(|_| {
                    let k = r.size(0, 8);
                    list(r, k)
                })
                .collect()
        };
        let polys = match kind {
            0 => vec![],
            1 => vec![vec![list(r, 1)]],
            2 | 4 => {
                let n = r.size(0, 12);
                vec![vec![list(r, n)]]
            }
            5 => vec![lists(r, 0)],
            3 => vec![lists(r, 1)],
            _ => {
                let n = r.size(0, 4);
                (0..n).map(|_| lists(r, 1)).collect()
            }
        };
        Model { kind, polys }
    }
}
