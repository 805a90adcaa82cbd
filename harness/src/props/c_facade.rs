//! C18 boundaries, C19 the generic geometry, C20 line string accessors.
use super::c_segments::same;
use super::*;
use magog::planar::primitives::{Envelope, HasEnvelope};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C18",
            quick: 4_500_000,
            thorough: 450_000_000,
            floors: &[
                ("line string: open", 70_000),
                ("line string: closed", 50_000),
                ("line string: short and back to its start", 3_000),
                ("line string: no positions", 8_000),
                ("multi-line-string: end shared by an even number", 200_000),
                ("multi-line-string: end shared by an odd number above one", 100_000),
                ("multi-line-string: closed member", 300_000),
                ("multi-line-string: empty boundary", 100_000),
                ("multi-line-string: empty member", 80_000),
                ("polygon with holes", 90_000),
                ("multi-polygon", 100_000),
                ("empty polygon in a multi-polygon", 20_000),
                ("boundary of a boundary", 200_000),
                ("zeros of both signs", 40_000),
            ],
            rule: "A case is a geometry of any kind: lattice scenarios (valid and invalid), line-string networks on a few positions, arbitrary non-NaN coordinates, empty parts. Non-trivial with at least two positions. Oracle: end counting per the odd rule; list of rings.",
            case: c18,
        },
        Prop {
            id: "C19",
            quick: 2_500_000,
            thorough: 250_000_000,
            floors: &[
                ("Empty", 80_000),
                ("Point", 80_000),
                ("LineString", 80_000),
                ("Polygon", 80_000),
                ("MultiPoint", 80_000),
                ("MultiLineString", 80_000),
                ("MultiPolygon", 80_000),
                ("simple", 400_000),
                ("not simple", 200_000),
                ("empty", 100_000),
                ("not empty", 400_000),
                ("empty by empty members", 6_000),
            ],
            rule: "A case is a geometry of any kind (lattice scenarios or arbitrary bit patterns, with empty parts), asked directly and through Geometry, and unwrapped as each of the seven kinds. Non-trivial with at least one position. Oracle: the directly asked answers, kind and emptiness from the construction.",
            case: c19,
        },
        Prop {
            id: "C20",
            quick: 5_000_000,
            thorough: 500_000_000,
            floors: &[
                ("closed", 600_000),
                ("closed but not a ring", 100_000),
                ("ring", 500_000),
                ("three positions back to the start", 70_000),
                ("ends equal as -0 and 0", 70_000),
                ("no positions", 100_000),
                ("one position", 70_000),
                ("length", 1_000_000),
                ("multi-line-string", 1_000_000),
                ("multi-line-string: closed", 300_000),
                ("multi-line-string: no members", 100_000),
                ("long", 2_000),
            ],
            rule: "A case is a list of positions (lattice chains and rings, arbitrary bit patterns, up to 5000 positions), built by every constructor, or a list of such. Non-trivial with at least two positions. Oracle: the list itself; closedness from its length and ends; lengths in double precision with compensated summation, tolerance 4(n+2) ulp.",
            case: c20,
        },
    ]
}

// ------------------------------------------------------------------ C18

fn c18(_i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    dispatch!(r.chance(1, 3), boundaries(r, ctx))
}

fn nan_free<T: Num>(m: &Model<T>) -> bool {
    m.polys.iter().flatten().flatten().all(|c| !c.0.is_nan() && !c.1.is_nan())
}

/// Members on few positions, so that ends coincide.
fn network<T: Num>(r: &mut Rng) -> Model<T> {
    let cv = Conv::rand::<T>(r);
    let side = r.big as i64;
    let pool: Vec<(T, T)> = (0..2 + r.more(8, 300)).map(|_| (cv.c(r.range(-2 * side, 2 * side)), cv.c(r.range(-2 * side, 2 * side)))).collect();
    let n = 1 + r.size(0, 12);
    let ms = (0..n)
        .map(|_| {
            let k = if r.chance(1, 12) { r.us(2) } else { 2 + r.more(4, 100) };
            let mut l: Vec<(T, T)> = (0..k).map(|_| *r.pick(&pool)).collect();
            if k > 1 && r.chance(1, 5) {
                l[k - 1] = l[0];
            }
            l
        })
        .collect();
    Model { kind: 5, polys: vec![ms] }
}

fn closed<T: Num>(l: &[(T, T)]) -> bool {
    l.len() >= 4 && l[0] == l[l.len() - 1]
}

/// Lexicographic order in which zeros of both signs are the same.
fn key<T: Num>(c: (T, T)) -> ((u64, u64), (f64, f64)) {
    let k = |x: f64| -> u64 {
        let b = (x + 0.0).to_bits();
        if b >> 63 == 1 { !b } else { b | 1 << 63 }
    };
    ((k(c.0.f64()), k(c.1.f64())), (c.0.f64() + 0.0, c.1.f64() + 0.0))
}

fn points_of<T: Num>(g: &Geometry<T>) -> Option<Vec<(f64, f64)>> {
    match g {
        Geometry::MultiPoint(m) => Some(m.points.iter().map(|q| (q.0.x.f64() + 0.0, q.0.y.f64() + 0.0)).collect()),
        Geometry::Point(q) => Some(vec![(q.0.x.f64() + 0.0, q.0.y.f64() + 0.0)]),
        g if g.is_empty() => Some(vec![]),
        _ => None,
    }
}

fn rings_of<T: Num>(g: &Geometry<T>) -> Option<Vec<Vec<u64>>> {
    let bits = |l: &LineString<T>| l.positions.iter().flat_map(|q| [q.x.bits(), q.y.bits()]).collect::<Vec<u64>>();
    let v = match g {
        Geometry::MultiLineString(m) => m.line_strings.iter().map(bits).collect(),
        Geometry::LineString(l) => vec![bits(l)],
        g if g.is_empty() => vec![],
        _ => return None,
    };
    Some(v.into_iter().filter(|l| !l.is_empty()).collect())
}

fn boundaries<T: Num>(r: &mut Rng, ctx: &mut Ctx) -> R {
    let m: Model<T> = match r.below(10) {
        0 | 1 | 2 => network(r),
        3 | 4 => {
            let k = r.below(7);
            Model::wild(r, k)
        }
        _ => {
            let k = *r.pick(&[0, 1, 2, 2, 3, 3, 4, 5, 6, 6]);
            Model::lattice(r, k)
        }
    };
    if !nan_free(&m) {
        ctx.cat("skipped: NaN");
        return Ok(());
    }
    // a polygon without exterior but with holes has no defined boundary
    if (m.kind == 3 || m.kind == 6) && m.polys.iter().any(|q| q[0].is_empty() && q.iter().any(|l| !l.is_empty())) {
        ctx.cat("skipped: holes without exterior");
        return Ok(());
    }
    ctx.eval();
    if m.len() > 1 {
        ctx.nontrivial(m.hash(18));
    }
    ctx.sample(|| format!("{} {:?}", T::NAME, m));
    let res = (|| {
        let g = m.geom();
        let b = sut("boundary", || match &g {
            Geometry::Empty(x) => x.boundary(),
            Geometry::Point(x) => x.boundary(),
            Geometry::LineString(x) => x.boundary(),
            Geometry::Polygon(x) => x.boundary(),
            Geometry::MultiPoint(x) => x.boundary(),
            Geometry::MultiLineString(x) => x.boundary(),
            Geometry::MultiPolygon(x) => x.boundary(),
        })?;
        match m.kind {
            0 | 1 | 4 => {
                ctx.cat("points or the empty geometry");
                if !b.is_empty() {
                    return viol(format!("boundary of {} is {:?}", g.geometry_type(), b));
                }
            }
            2 => {
                let l = &m.polys[0][0];
                let mut want: Vec<_> = match l.len() {
                    0 => {
                        ctx.cat("line string: no positions");
                        vec![]
                    }
                    _ if closed(l) => {
                        ctx.cat("line string: closed");
                        vec![]
                    }
                    n => {
                        ctx.cat("line string: open");
                        if n > 1 && l[0] == l[n - 1] {
                            ctx.cat("line string: short and back to its start");
                        }
                        vec![key(l[0]), key(l[n - 1])]
                    }
                };
                want.sort_by_key(|k| k.0);
                let want: Vec<_> = want.into_iter().map(|k| k.1).collect();
                let got = points_of(&b).map(|mut v| {
                    v.sort_by_key(|c| key::<f64>(*c).0);
                    v
                });
                if got.as_ref() != Some(&want) {
                    return viol(format!("boundary of the line string is {:?}, its ends are {:?}", b, want));
                }
            }
            5 => {
                let mut count: BTreeMap<(u64, u64), (u64, (f64, f64))> = BTreeMap::new();
                let mut signs = false;
                for l in &m.polys[0] {
                    if l.is_empty() {
                        ctx.cat("multi-line-string: empty member");
                    } else if closed(l) {
                        ctx.cat("multi-line-string: closed member");
                    } else {
                        for c in [l[0], l[l.len() - 1]] {
                            let (k, v) = key(c);
                            count.entry(k).or_insert((0, v)).0 += 1;
                            signs |= c.0.is_zero() && c.0.is_sign_negative() || c.1.is_zero() && c.1.is_sign_negative();
                        }
                    }
                }
                if signs {
                    ctx.cat("zeros of both signs");
                }
                if count.values().any(|c| c.0 % 2 == 0) {
                    ctx.cat("multi-line-string: end shared by an even number");
                }
                if count.values().any(|c| c.0 % 2 == 1 && c.0 > 1) {
                    ctx.cat("multi-line-string: end shared by an odd number above one");
                }
                let want: Vec<(f64, f64)> = count.values().filter(|c| c.0 % 2 == 1).map(|c| c.1).collect();
                if want.is_empty() {
                    ctx.cat("multi-line-string: empty boundary");
                }
                if points_of(&b).as_ref() != Some(&want) {
                    return viol(format!("boundary is {:?}, ends of odd count: {:?}", b, want));
                }
            }
            _ => {
                if m.kind == 6 {
                    ctx.cat("multi-polygon");
                    if m.polys.iter().any(|q| q[0].is_empty()) {
                        ctx.cat("empty polygon in a multi-polygon");
                    }
                } else if m.polys[0].len() > 1 {
                    ctx.cat("polygon with holes");
                }
                let want: Vec<Vec<u64>> = m
                    .polys
                    .iter()
                    .flatten()
                    .filter(|l| !l.is_empty())
                    .map(|l| l.iter().flat_map(|c| [c.0.bits(), c.1.bits()]).collect())
                    .collect();
                if rings_of(&b).as_ref() != Some(&want) {
                    return viol(format!("boundary is {:?}, not the rings in order", b));
                }
                if !want.is_empty() && m.polys.iter().flatten().all(|l| l.is_empty() || closed(l)) {
                    ctx.cat("boundary of a boundary");
                    let bb = sut("boundary of the boundary", || b.boundary())?;
                    if !bb.is_empty() {
                        return viol(format!("boundary of the boundary is {:?}", bb));
                    }
                }
            }
        }
        if m.kind != 0 && m.kind != 1 && m.kind != 4 && !(b.dimension() < g.dimension()) {
            return viol(format!("boundary of dimension {} of a {} of dimension {}", b.dimension(), g.geometry_type(), g.dimension()));
        }
        Ok(())
    })();
    with_input(res, || format!("{} {:?}", T::NAME, m))
}

// ------------------------------------------------------------------ C19

const KINDS: [(&str, u8); 7] = [("Empty", 0), ("Point", 0), ("LineString", 1), ("Polygon", 2), ("MultiPoint", 0), ("MultiLineString", 1), ("MultiPolygon", 2)];

fn c19(_i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    dispatch!(r.chance(1, 3), generic(r, ctx))
}

#[derive(Debug, PartialEq)]
struct Facts {
    name: String,
    dim: u8,
    env: Vec<u64>,
    empty: bool,
    simple: bool,
    boundary: Vec<u64>,
}
fn env_bits<T: Num>(e: Envelope<T>) -> Vec<u64> {
    match e {
        Envelope::Empty => vec![],
        Envelope::Bounds { min, max } => [min.x, min.y, max.x, max.y].iter().map(|c| if c.is_nan() { u64::MAX } else { c.bits() }).collect(),
    }
}
macro_rules! facts {
    ($w:expr) => {{
        let w = &$w;
        sut("asking a geometry", || Facts {
            name: w.geometry_type().to_string(),
            dim: w.dimension(),
            env: env_bits(w.envelope()),
            empty: w.is_empty(),
            simple: w.is_simple(),
            boundary: dump(&w.boundary()),
        })
    }};
}

fn generic<T: Num>(r: &mut Rng, ctx: &mut Ctx) -> R {
    let kind = r.below(7);
    let m: Model<T> = if r.chance(1, 3) { Model::wild(r, kind) } else { Model::lattice(r, kind) };
    ctx.eval();
    if m.len() > 0 {
        ctx.nontrivial(m.hash(19));
    }
    ctx.cat(KINDS[kind as usize].0);
    ctx.sample(|| format!("{} {:?}", T::NAME, m));
    let how = r.us(2);
    let res = (|| {
        macro_rules! wrap {
            ($w:expr, $v:ident) => {{
                let w = $w;
                let f = facts!(w)?;
                (f, if how == 0 { Geometry::from(w) } else { Geometry::$v(w) })
            }};
        }
        let (want, g) = match kind {
            0 => {
                let e = Empty::<T>::new();
                let f = facts!(e)?;
                if !f.simple || !f.empty || f.dim != 0 || f.name != "Empty" || !f.env.is_empty() || !Geometry::<T>::from(Empty::new()).boundary().is_empty() {
                    return viol(format!("the empty geometry says {:?}", f));
                }
                (f, if how == 0 { Geometry::from(e) } else { Geometry::empty() })
            }
            1 => wrap!(m.point(), Point),
            2 => wrap!(m.ls(), LineString),
            3 => wrap!(m.poly(), Polygon),
            4 => wrap!(m.mpt(), MultiPoint),
            5 => wrap!(m.mls(), MultiLineString),
            _ => wrap!(m.mpoly(), MultiPolygon),
        };
        ctx.cat(if want.simple { "simple" } else { "not simple" });
        ctx.cat(if want.empty { "empty" } else { "not empty" });
        if want.empty && !m.polys.is_empty() && (kind == 5 && !m.polys[0].is_empty() || kind == 6) {
            ctx.cat("empty by empty members");
        }
        let got = facts!(g)?;
        if got != want {
            return viol(format!("generic geometry answers {:?}, the wrapped one {:?}", got, want));
        }
        if (got.name.as_str(), got.dim) != KINDS[kind as usize] {
            return viol(format!("kind {:?}, dimension {} of a {:?}", got.name, got.dim, KINDS[kind as usize]));
        }
        if got.empty != m.is_empty() {
            return viol(format!("is_empty() = {}", got.empty));
        }
        if got.empty && !got.env.is_empty() {
            return viol("an empty geometry has a bounding box");
        }
        if dump(&g) != m.dump() {
            return viol(format!("wrapped geometry has become {:?}", g));
        }
        // unwrap as every kind
        for k in 0..7u64 {
            let g = m.geom();
            let back: Option<Geometry<T>> = sut("unwrapping", || match k {
                0 => g.as_empty().map(|_| Geometry::empty()),
                1 => g.as_point().map(Geometry::Point),
                2 => g.as_linestring().map(Geometry::LineString),
                3 => g.as_polygon().map(Geometry::Polygon),
                4 => g.as_multipoint().map(Geometry::MultiPoint),
                5 => g.as_multilinestring().map(Geometry::MultiLineString),
                _ => g.as_multipolygon().map(Geometry::MultiPolygon),
            })?;
            let some = if k == 0 { m.is_empty() } else { k == kind };
            if back.is_some() != some {
                return viol(format!("unwrapping a {} as {}: {:?}", KINDS[kind as usize].0, KINDS[k as usize].0, back));
            }
            if let Some(back) = back {
                if k != 0 && dump(&back) != m.dump() {
                    return viol(format!("unwrapped as {:?}", back));
                }
                // equality of the wrapped values carries over
                if k != 0 && nan_free(&m) && back != m.geom() {
                    return viol(format!("unwrapped {:?} is not equal to the original", back));
                }
            }
        }
        Ok(())
    })();
    with_input(res, || format!("{} {:?}", T::NAME, m))
}

// ------------------------------------------------------------------ C20

fn c20(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    dispatch!(r.chance(1, 3), accessors(i, r, ctx))
}

fn pos_is<T: Num>(q: Position<T>, c: (T, T)) -> bool {
    same(q.x, c.0) && same(q.y, c.1)
}
fn pt_is<T: Num>(q: Option<Point<T>>, c: Option<&(T, T)>) -> bool {
    match (q, c) {
        (None, None) => true,
        (Some(q), Some(c)) => pos_is(q.0, *c),
        _ => false,
    }
}
/// Length in double precision and a bound on what rounding may add, if it is
/// far from overflow and underflow.
fn length<T: Num>(l: &[(T, T)]) -> Option<(f64, f64)> {
    let (lo, hi) = if std::mem::size_of::<T>() == 8 { (1e-140, 1e140) } else { (1e-17, 1e17) };
    let (mut s, mut c) = (0f64, 0f64);
    for w in l.windows(2) {
        let (dx, dy) = (w[1].0.f64() - w[0].0.f64(), w[1].1.f64() - w[0].1.f64());
        for d in [dx, dy] {
            if d != 0.0 && !(lo..hi).contains(&d.abs()) {
                return None;
            }
        }
        let y = dx.hypot(dy) - c;
        let t = s + y;
        c = (t - s) - y;
        s = t;
    }
    if l.iter().any(|c| !c.0.is_finite() || !c.1.is_finite()) {
        return None;
    }
    Some((s, 4.0 * (l.len() as f64 + 2.0) * T::eps() * s))
}

fn accessors<T: Num>(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    let mut m: Model<T> = match r.below(8) {
        0 | 1 => Model::wild(r, 5),
        2 => Model::lattice(r, 5),
        3 => {
            let cv = Conv::rand::<T>(r);
            let n = r.more(4, 100);
            let rings: Vec<Vec<P>> = (0..n)
                .map(|_| {
                    let b = shapes::bound(r, T::BITS);
                    crate::gen::any_ring(r, b)
                })
                .collect();
            Model::of(5, &[rings], &cv)
        }
        _ => {
            let mut q = Model::lattice(r, 2);
            q.kind = 5;
            q
        }
    };
    if m.polys[0].len() == 1 {
        let l = &mut m.polys[0][0];
        match r.below(12) {
            0 => l.truncate(3),
            1 => l.truncate(r.us(3)),
            2 => {
                if let Some(c) = l.first().copied() {
                    l.push(c)
                }
            }
            3 if l.len() > 1 => {
                l.truncate(3);
                let k = l.len();
                l[k - 1] = l[0];
            }
            4 if l.len() > 3 => {
                let k = l.len();
                let z = T::zero();
                l[0] = (z, if r.bool() { z } else { l[0].1 });
                l[k - 1] = (-z, if l[0].1.is_zero() && r.bool() { -z } else { l[0].1 });
            }
            _ => (),
        }
    }
    if i % 500 == 0 {
        let n = if i < 2_000 { 100_000 + r.us(100_000) } else { 100 + r.size(0, if ctx.thorough { 20_000 } else { 4_900 }) };
        let l = (0..n).map(|_| (T::of_f64(r.unit() * 1e3), T::of_f64(r.unit() * 1e3))).collect();
        m.polys[0].push(l);
        ctx.cat("long");
    }
    ctx.eval();
    if m.len() > 1 {
        ctx.nontrivial(m.hash(20));
    }
    ctx.sample(|| format!("{} {:?}", T::NAME, m));
    let mut total = Some((0f64, 0f64));
    for l in &m.polys[0] {
        let len = length(l);
        total = match (total, len) {
            (Some(t), Some(l)) => Some((t.0 + l.0, t.1 + l.1)),
            _ => None,
        };
        with_input(one_line(r, ctx, l, len), || format!("{} {:?}", T::NAME, l))?;
    }
    let ms = &m.polys[0];
    let res = (|| {
        let g = sut("MultiLineString", || match r.below(3) {
            0 => m.mls(),
            1 => MultiLineString::from(ms.clone()),
            _ => MultiLineString::from(ms.iter().map(|l| LineString::from(l.clone())).collect::<Vec<_>>()),
        })?;
        ctx.cat("multi-line-string");
        if ms.is_empty() {
            ctx.cat("multi-line-string: no members");
        }
        if dump(&Geometry::MultiLineString(m.mls())) != m.dump() || g.line_strings.len() != ms.len() {
            return viol("the members of the multi-line-string are not those it was made of");
        }
        let want = ms.iter().all(|l| closed(l));
        if want && !ms.is_empty() {
            ctx.cat("multi-line-string: closed");
        }
        if sut("MultiLineString::is_closed", || g.is_closed())? != want {
            return viol(format!("MultiLineString.is_closed() = {}", !want));
        }
        if let Some((s, tol)) = total {
            let got = sut("MultiLineString::length", || g.length())?.f64();
            let tol = tol + (ms.len() as f64 + 2.0) * 4.0 * T::eps() * s;
            if !((got - s).abs() <= tol) {
                return viol(format!("MultiLineString.length() = {:?}, sum of segment lengths {:?}", got, s));
            }
        }
        Ok(())
    })();
    with_input(res, || format!("{} {:?}", T::NAME, m))
}

fn one_line<T: Num>(r: &mut Rng, ctx: &mut Ctx, l: &[(T, T)], len: Option<(f64, f64)>) -> R {
    let n = l.len();
    let pos = Model::<T>::poss(l);
    let g = sut("LineString", || match r.below(4) {
        0 => LineString::new(pos),
        1 => LineString::from(l.to_vec()),
        2 => LineString::from(l.iter().map(|c| [c.0, c.1]).collect::<Vec<_>>()),
        _ => LineString::collect_from(pos.into_iter()),
    })?;
    match n {
        0 => ctx.cat("no positions"),
        1 => ctx.cat("one position"),
        3 if l[0] == l[2] => ctx.cat("three positions back to the start"),
        _ => (),
    }
    if g.positions.len() != n || !g.positions.iter().zip(l).all(|(q, c)| pos_is(*q, *c)) {
        return viol(format!("positions are {:?}", g.positions));
    }
    if g.num_points() != n || g.is_empty() != (n == 0) {
        return viol(format!("num_points() = {}, is_empty() = {} with {} positions", g.num_points(), g.is_empty(), n));
    }
    let probe: Vec<usize> = if n <= 40 { (0..n + 3).collect() } else { (0..40).map(|_| r.us(n + 2)).chain(n - 2..n + 2).collect() };
    for k in probe.into_iter().chain([usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1]) {
        let q = sut("LineString::get_point", || g.get_point(k))?;
        if !pt_is(q, l.get(k)) {
            return viol(format!("get_point({}) of {} positions is not the position there", k, n));
        }
    }
    if !pt_is(sut("start_point", || g.start_point())?, l.first()) || !pt_is(sut("end_point", || g.end_point())?, l.last()) {
        return viol(format!("start_point {:?}, end_point {:?}", g.start_point(), g.end_point()));
    }
    let segs: Vec<Segment<T>> = sut("segments_iter", || g.segments_iter().collect())?;
    if segs.len() != n.saturating_sub(1) || !segs.iter().zip(l.windows(2)).all(|(s, w)| pos_is(s.start, w[0]) && pos_is(s.end, w[1])) {
        return viol(format!("segments_iter gives {:?}", segs));
    }
    if n > 1 {
        for _ in 0..4 {
            let k = r.us(n - 1);
            let s = sut("get_segment", || g.get_segment(k))?;
            if !pos_is(s.start, l[k]) || !pos_is(s.end, l[k + 1]) {
                return viol(format!("get_segment({}) = {:?}", k, s));
            }
        }
        let k = n - 2;
        let s = sut("get_segment", || g.get_segment(k))?;
        if !pos_is(s.start, l[k]) || !pos_is(s.end, l[k + 1]) {
            return viol(format!("get_segment({}) = {:?}", k, s));
        }
    }
    let want = closed(l);
    if want {
        ctx.cat("closed");
        let (a, z) = (l[0], l[n - 1]);
        if a.0.bits() != z.0.bits() || a.1.bits() != z.1.bits() {
            ctx.cat("ends equal as -0 and 0");
        }
    }
    if sut("is_closed", || g.is_closed())? != want {
        return viol(format!("is_closed() = {}", !want));
    }
    if n <= 3000 {
        let ring = want && sut("validate", || g.validate())?.is_ok();
        if want {
            ctx.cat(if ring { "ring" } else { "closed but not a ring" });
        }
        if sut("is_ring", || g.is_ring())? != ring {
            return viol(format!("is_ring() = {}, closed {}, validate {:?}", !ring, want, g.validate()));
        }
    }
    if let Some((s, tol)) = len {
        if n > 1 {
            ctx.cat("length");
        }
        let got = sut("length", || g.length())?.f64();
        if !((got - s).abs() <= tol) {
            return viol(format!("length() = {:?}, sum of segment lengths {:?} (tolerance {:e})", got, s, tol));
        }
    }
    Ok(())
}
