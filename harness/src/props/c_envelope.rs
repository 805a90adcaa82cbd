//! C06 planar envelope algebra, C25 tight envelopes of every geometry.
use super::c_segments::{any_value, same};
use super::*;
use magog::planar::primitives::{Envelope, HasEnvelope};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            quick: 10_000_000,
            thorough: 1_000_000_000,
            floors: &[
                ("touching", 10_000_000),
                ("corner touch", 2_000_000),
                ("disjoint on one axis only", 7_000_000),
                ("contained", 10_000_000),
                ("with the empty envelope", 9_000_000),
                ("merge of many", 5_000_000),
                ("invalid: not finite", 900_000),
                ("invalid: not ordered", 1_000_000),
                ("buffer", 8_000_000),
                ("center", 8_000_000),
                ("NaN coordinate", 500_000),
            ],
            rule: "A case is a handful of envelopes with corners from a few values per axis (so that sides coincide), arbitrary finite values and infinities, or the empty one, plus explicitly given corners in any order for validation. Non-trivial with two non-empty envelopes. Oracle: interval arithmetic per axis.",
            case: c06,
        },
        Prop {
            id: "C25",
            quick: 6_000_000,
            thorough: 600_000_000,
            floors: &[
                ("point", 4_000_000),
                ("segment", 2_000_000),
                ("line string", 5_000_000),
                ("multi-point", 5_000_000),
                ("multi-line-string", 4_000_000),
                ("polygon", 4_000_000),
                ("multi-polygon", 1_000_000),
                ("NaN inside", 400_000),
                ("no coordinates", 1_000_000),
                ("empty part", 1_000_000),
                ("long", 7_000),
            ],
            rule: "A case is a nested list of coordinates (lattices, arbitrary values, NaN, infinities, extremes, empty parts, up to 3000 positions) turned into every kind of geometry by every constructor and conversion. Non-trivial with at least two positions. Oracle: folded minima and maxima ignoring NaN.",
            case: c25,
        },
    ]
}

type B<T> = Option<[T; 4]>;

fn c06(_i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    dispatch!(r.chance(2, 5), algebra(r, ctx))
}

fn parts<T: Num>(e: &Envelope<T>) -> B<T> {
    match e {
        Envelope::Empty => None,
        Envelope::Bounds { min, max } => Some([min.x, min.y, max.x, max.y]),
    }
}

fn meet<T: Num>(a: &B<T>, b: &B<T>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a[0] <= b[2] && b[0] <= a[2] && a[1] <= b[3] && b[1] <= a[3],
        _ => false,
    }
}
fn inside<T: Num>(outer: &B<T>, b: &B<T>) -> bool {
    match (outer, b) {
        (Some(a), Some(b)) => a[0] <= b[0] && b[2] <= a[2] && a[1] <= b[1] && b[3] <= a[3],
        _ => false,
    }
}
fn cover<T: Num>(a: &B<T>, b: &B<T>) -> B<T> {
    let lo = |a: T, b: T| if b < a { b } else { a };
    let hi = |a: T, b: T| if b > a { b } else { a };
    match (a, b) {
        (None, x) | (x, None) => *x,
        (Some(a), Some(b)) => Some([lo(a[0], b[0]), lo(a[1], b[1]), hi(a[2], b[2]), hi(a[3], b[3])]),
    }
}

fn algebra<T: Num>(r: &mut Rng, ctx: &mut Ctx) -> R {
    let style = r.below(4);
    let cv = Conv::rand::<T>(r);
    let pool: Vec<T> = (0..6)
        .map(|_| loop {
            let v: T = match style {
                0 => cv.c(r.range(-2, 2)),
                1 => cv.c(r.range(-1000, 1000)),
                2 => any_value(r),
                _ => T::of_f64((r.unit() - 0.5) * 1e3),
            };
            if !v.is_nan() {
                break v;
            }
        })
        .collect();
    let mk = |r: &mut Rng| -> (B<T>, Envelope<T>) {
        if r.chance(1, 7) {
            return (None, if r.bool() { Envelope::Empty } else { Envelope::empty() });
        }
        let (a, b, c, d) = (*r.pick(&pool), *r.pick(&pool), *r.pick(&pool), *r.pick(&pool));
        let e = Envelope::new(Position::new(a, b), Position::new(c, d));
        let (x0, x1) = if c < a { (c, a) } else { (a, c) };
        let (y0, y1) = if d < b { (d, b) } else { (b, d) };
        (Some([x0, y0, x1, y1]), e)
    };
    let v: Vec<(B<T>, Envelope<T>)> = (0..4).map(|_| mk(r)).collect();
    ctx.eval();
    let mut h = H::new(6);
    for b in v.iter().filter_map(|x| x.0) {
        for c in b {
            h.u(c.bits());
        }
    }
    if v.iter().filter(|x| x.0.is_some()).count() > 1 {
        ctx.nontrivial(h.0);
    }
    ctx.sample(|| format!("{} {:?}", T::NAME, v.iter().map(|x| x.0).collect::<Vec<_>>()));
    let res = (|| {
        for (b, e) in &v {
            if parts(e) != *b {
                return viol(format!("Envelope::new gives {:?}, ordered corners {:?}", e, b));
            }
            if e.is_empty() != b.is_none() {
                return viol(format!("{:?}.is_empty() = {}", e, e.is_empty()));
            }
            if e.min() != b.map(|b| Position::new(b[0], b[1])) || e.max() != b.map(|b| Position::new(b[2], b[3])) {
                return viol(format!("{:?}: min() {:?}, max() {:?}", e, e.min(), e.max()));
            }
            if parts(&e.envelope()) != *b {
                return viol(format!("{:?}.envelope() = {:?}", e, e.envelope()));
            }
            // validation
            let ok = b.map_or(true, |b| b.iter().all(|c| c.is_finite()));
            let got = sut("Envelope::validate", || e.validate())?;
            if !ok {
                ctx.cat("invalid: not finite");
            }
            if got.is_ok() != ok {
                return viol(format!("{:?}.validate() = {:?}", e, got));
            }
            // centre
            let c = sut("center", || e.center())?;
            match b {
                None => {
                    if c.is_some() {
                        return viol(format!("center of the empty envelope = {:?}", c));
                    }
                }
                Some(b) => {
                    let c = match c {
                        Some(c) => c,
                        None => return viol(format!("{:?} has no center", e)),
                    };
                    ctx.cat("center");
                    for (lo, hi, g) in [(b[0], b[2], c.x), (b[1], b[3], c.y)] {
                        let big = T::max_fin().f64() / 4.0;
                        if !(lo.f64().abs() < big && hi.f64().abs() < big) {
                            continue;
                        }
                        let w = lo.f64() / 2.0 + hi.f64() / 2.0;
                        let tol = 2.0 * T::eps() * lo.f64().abs().max(hi.f64().abs()) + 2.0 * T::min_sub().f64();
                        if !((g.f64() - w).abs() <= tol) || (style < 2 && g.f64() != w) {
                            return viol(format!("{:?}.center() = {:?}", e, c));
                        }
                    }
                }
            }
            // growing
            let d = match r.below(4) {
                0 => T::zero(),
                1 => cv.c::<T>(r.range(0, 5)).abs(),
                _ => T::of_f64(r.unit() * 10.0),
            };
            let g = sut("buffer", || e.buffer(d))?;
            match (b, parts(&g)) {
                (None, None) => (),
                (Some(b), Some(g)) => {
                    ctx.cat("buffer");
                    let w = [b[0] - d, b[1] - d, b[2] + d, b[3] + d];
                    if !(0..4).all(|k| same(g[k], w[k])) {
                        return viol(format!("{:?}.buffer({:?}) = {:?}", e, d, g));
                    }
                }
                _ => return viol(format!("{:?}.buffer({:?}) = {:?}", e, d, g)),
            }
        }
        for i in 0..v.len() {
            for j in 0..v.len() {
                let ((a, e), (b, f)) = (&v[i], &v[j]);
                if let (Some(x), Some(y)) = (a, b) {
                    let tx = x[0] == y[2] || x[2] == y[0];
                    let ty = x[1] == y[3] || x[3] == y[1];
                    if meet(a, b) && (tx || ty) {
                        ctx.cat("touching");
                        if tx && ty {
                            ctx.cat("corner touch");
                        }
                    }
                    let dx = x[0] > y[2] || y[0] > x[2];
                    let dy = x[1] > y[3] || y[1] > x[3];
                    if dx != dy {
                        ctx.cat("disjoint on one axis only");
                    }
                    if inside(a, b) {
                        ctx.cat("contained");
                    }
                } else {
                    ctx.cat("with the empty envelope");
                }
                let g = sut("intersects", || e.intersects(*f))?;
                if g != meet(a, b) {
                    return viol(format!("{:?}.intersects({:?}) = {}", e, f, g));
                }
                let g = sut("contains", || e.contains(*f))?;
                if g != inside(a, b) {
                    return viol(format!("{:?}.contains({:?}) = {}", e, f, g));
                }
                let w = cover(a, b);
                let g = sut("merge", || e.merge(*f))?;
                if parts(&g) != w {
                    return viol(format!("{:?}.merge({:?}) = {:?}", e, f, g));
                }
                let mut k = *e;
                sut("expand", || k.expand(*f))?;
                if parts(&k) != w {
                    return viol(format!("{:?}.expand({:?}) gives {:?}", e, f, k));
                }
                if (e == f) != (a == b) {
                    return viol(format!("({:?} == {:?}) = {}", e, f, e == f));
                }
                // with a position as the other party
                if let Some(y) = b {
                    let q = Position::new(*r.pick(&[y[0], y[2]]), *r.pick(&[y[1], y[3]]));
                    let qb = Some([q.x, q.y, q.x, q.y]);
                    if sut("contains", || e.contains(q))? != inside(a, &qb) {
                        return viol(format!("{:?}.contains({:?}) = {}", e, q, !inside(a, &qb)));
                    }
                    let g = sut("merge", || e.merge(q))?;
                    if parts(&g) != cover(a, &qb) {
                        return viol(format!("{:?}.merge({:?}) = {:?}", e, q, g));
                    }
                    let mut k = *e;
                    sut("expand", || k.expand(q))?;
                    if parts(&k) != cover(a, &qb) {
                        return viol(format!("{:?}.expand({:?}) gives {:?}", e, q, k));
                    }
                }
            }
        }
        // over a sequence, in any order
        let n = if r.big > 1 { 30 + r.size(0, 3000) } else { r.size(0, 30) };
        let mut w: Vec<(B<T>, Envelope<T>)> = (0..n).map(|_| mk(r)).collect();
        if n > 30 {
            ctx.cat("merge of over 30");
            let k = r.spot(n);
            for x in w.iter_mut().step_by(1 + r.us(3)) {
                x.0 = None;
                x.1 = Envelope::Empty;
            }
            w[k] = mk(r);
        }
        for _ in 0..2 {
            let want = w.iter().fold(None, |x, y| cover(&x, &y.0));
            let es: Vec<Envelope<T>> = w.iter().map(|x| x.1).collect();
            let g = sut("Envelope::of", || Envelope::of(es.iter()))?;
            ctx.cat("merge of many");
            if parts(&g) != want {
                return viol(format!("Envelope::of({:?}) = {:?}, expected {:?}", es, g, want));
            }
            r.shuffle(&mut w);
        }
        // corners as given: validation
        let q: Vec<T> = (0..4).map(|_| if r.chance(1, 6) { any_value(r) } else { *r.pick(&pool) }).collect();
        let e = Envelope::Bounds { min: Position::new(q[0], q[1]), max: Position::new(q[2], q[3]) };
        let fin = q.iter().all(|c| c.is_finite());
        let ok = fin && q[0] <= q[2] && q[1] <= q[3];
        if fin && !ok {
            ctx.cat("invalid: not ordered");
        }
        let got = sut("Envelope::validate", || e.validate())?;
        if got.is_ok() != ok {
            return viol(format!("{:?}.validate() = {:?}", e, got));
        }
        // a box with a NaN coordinate is neither met nor contained
        let mut q = q;
        if r.bool() {
            let k = r.us(4);
            q[k] = T::nan();
            if r.bool() {
                q[(k + 2) % 4] = T::nan();
            }
        }
        if q.iter().any(|c| c.is_nan()) {
            ctx.cat("NaN coordinate");
            let e = Envelope::Bounds { min: Position::new(q[0], q[1]), max: Position::new(q[2], q[3]) };
            for (_, f) in &v {
                if sut("intersects", || e.intersects(*f) || f.intersects(e))? {
                    return viol(format!("{:?} intersects {:?}", e, f));
                }
                if sut("contains", || e.contains(*f) || f.contains(e))? {
                    return viol(format!("{:?} contains {:?}, or the other way round", e, f));
                }
            }
        }
        Ok(())
    })();
    with_input(res, || format!("{} {:?}", T::NAME, v.iter().map(|x| x.0).collect::<Vec<_>>()))
}

// ------------------------------------------------------------------- C25

fn c25(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    dispatch!(r.chance(2, 5), tight(i, r, ctx))
}

type C<T> = (T, T);

fn check<T: Num>(what: &str, got: Envelope<T>, cs: &[C<T>]) -> R {
    let fold = |f: fn(&C<T>) -> T| -> Option<(T, T)> {
        let mut it = cs.iter().map(f).filter(|c| !c.is_nan());
        let first = it.next()?;
        Some(it.fold((first, first), |(a, b), c| (if c < a { c } else { a }, if c > b { c } else { b })))
    };
    if cs.is_empty() {
        if got != Envelope::Empty || !got.is_empty() {
            return viol(format!("{} without coordinates has envelope {:?}", what, got));
        }
        return Ok(());
    }
    let (min, max) = match got {
        Envelope::Empty => return viol(format!("{} has the empty envelope", what)),
        Envelope::Bounds { min, max } => (min, max),
    };
    for (axis, want, g) in [("x", fold(|c| c.0), (min.x, max.x)), ("y", fold(|c| c.1), (min.y, max.y))] {
        if let Some(w) = want {
            if w.0 != g.0 || w.1 != g.1 {
                return viol(format!("{}: envelope {} sides {:?}, coordinates span {:?}", what, axis, g, w));
            }
        }
    }
    Ok(())
}

fn tight<T: Num>(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    let style = r.below(6);
    let off = r.range(-1000, 1000) as f64;
    let val = |r: &mut Rng| -> T {
        match style {
            0 => T::of_f64(r.range(-3, 3) as f64),
            1 => T::of_f64(r.unit() * 100.0 + off),
            2 => any_value(r),
            3 => {
                if r.chance(1, 6) {
                    T::nan()
                } else {
                    T::of_f64(r.range(-9, 9) as f64 + off)
                }
            }
            4 => T::of_f64(-r.unit() * 1e-3 - 5.0),
            _ => T::of_f64(r.unit() * 1e-3 + 5.0),
        }
    };
    let list = |r: &mut Rng, n: usize| -> Vec<C<T>> { (0..n).map(|_| (val(r), val(r))).collect() };
    let len = |r: &mut Rng| match r.below(5) {
        0 => 0,
        1 => 1,
        _ => r.size(2, 12),
    };
    let mut polys: Vec<Vec<Vec<C<T>>>> = (0..1 + r.more(5, 400))
        .map(|_| {
            let k = r.more(3, 100);
            (0..1 + k)
                .map(|_| {
                    let n = len(r);
                    list(r, n)
                })
                .collect()
        })
        .collect();
    if i % 200 == 0 {
        let n = if i < 4_000 { 100_000 + r.us(100_000) } else { 100 + r.us(if i < 100_000 { 20_000 } else { 2900 }) };
        polys[0][0] = list(r, n);
        ctx.cat("long");
        for (s, x) in [(-1.0, true), (1.0, true), (-1.0, false), (1.0, false)] {
            if r.bool() {
                let k = r.spot(n);
                let v = if r.bool() { T::of_f64(s * (2000.0 + r.below(9) as f64)) } else { T::of_f64(s) * T::max_fin() };
                if x {
                    polys[0][0][k].0 = v;
                } else {
                    polys[0][0][k].1 = v;
                }
            }
        }
    }
    if polys.len() > 20 && r.bool() {
        // the extreme in one member
        let k = r.spot(polys.len());
        let v = (T::of_f64(*r.pick(&[-2000.0, 2000.0])), T::of_f64(*r.pick(&[-2000.0, 0.0, 2000.0])));
        let j = r.spot(polys[k].len());
        if let Some(c) = polys[k][j].last_mut() {
            *c = v;
        }
    }
    ctx.eval();
    let all: Vec<C<T>> = polys.iter().flatten().flatten().copied().collect();
    if all.len() > 1 {
        let mut h = H::new(25);
        for c in &all {
            h.u(c.0.bits()).u(c.1.bits());
        }
        ctx.nontrivial(h.0);
    }
    if all.iter().any(|c| c.0.is_nan() || c.1.is_nan()) {
        ctx.cat("NaN inside");
    }
    if polys.iter().flatten().any(|l| l.is_empty()) {
        ctx.cat("empty part");
    }
    ctx.sample(|| format!("{} {:?}", T::NAME, polys));
    let pos = |v: &[C<T>]| -> Vec<Position<T>> { v.iter().map(|c| Position::new(c.0, c.1)).collect() };
    let res = (|| {
        for c in all.iter().take(3) {
            let q = Position::new(c.0, c.1);
            ctx.cat("point");
            check("Position", sut("envelope", || q.envelope())?, &[*c])?;
            check("Point", sut("envelope", || Point::new(q).envelope())?, &[*c])?;
            check("Point::from", sut("envelope", || Point::from(*c).envelope())?, &[*c])?;
        }
        for w in all.windows(2).take(2) {
            ctx.cat("segment");
            check("Segment", sut("envelope", || Segment::from((w[0], w[1])).envelope())?, w)?;
        }
        // every conversion into a line string
        let mk = |r: &mut Rng, v: &[C<T>]| -> LineString<T> {
            match r.below(4) {
                0 => LineString::new(pos(v)),
                1 => LineString::from(v.to_vec()),
                2 => LineString::from(v.iter().map(|c| [c.0, c.1]).collect::<Vec<_>>()),
                _ => LineString::collect_from(v.iter().map(|c| Position::new(c.0, c.1))),
            }
        };
        for l in polys.iter().flatten().take(4) {
            ctx.cat("line string");
            if l.is_empty() {
                ctx.cat("no coordinates");
            }
            let g = sut("LineString", || mk(r, l))?;
            check("LineString", sut("envelope", || g.envelope())?, l)?;
            check("LineString (clone)", sut("envelope", || g.clone().envelope())?, l)?;
            check("Geometry of LineString", sut("envelope", || Geometry::from(g).envelope())?, l)?;
            ctx.cat("multi-point");
            let g = match r.below(3) {
                0 => MultiPoint::new(pos(l).into_iter().map(Point::new).collect()),
                1 => MultiPoint::from(l.clone()),
                _ => MultiPoint::from(pos(l)),
            };
            check("MultiPoint", sut("envelope", || g.envelope())?, l)?;
            check("Geometry of MultiPoint", sut("envelope", || Geometry::from(g).envelope())?, l)?;
        }
        for q in &polys {
            ctx.cat("multi-line-string");
            let cs: Vec<C<T>> = q.iter().flatten().copied().collect();
            let g = match r.below(3) {
                0 => MultiLineString::new(q.iter().map(|l| mk(r, l)).collect()),
                1 => MultiLineString::from(q.iter().map(|l| mk(r, l)).collect::<Vec<_>>()),
                _ => MultiLineString::from(q.clone()),
            };
            check("MultiLineString", sut("envelope", || g.envelope())?, &cs)?;
            check("Geometry of MultiLineString", sut("envelope", || Geometry::from(g).envelope())?, &cs)?;
        }
        let poly = |r: &mut Rng, q: &Vec<Vec<C<T>>>| -> Polygon<T> {
            match r.below(3) {
                0 if q.len() == 1 => Polygon::from(mk(r, &q[0])),
                1 if q.len() == 1 => Polygon::from(q[0].clone()),
                _ => Polygon::new(mk(r, &q[0]), q[1..].iter().map(|l| mk(r, l)).collect()),
            }
        };
        for q in &polys {
            ctx.cat("polygon");
            let g = sut("Polygon", || poly(r, q))?;
            check("Polygon", sut("envelope", || g.envelope())?, &q[0])?;
            check("Geometry of Polygon", sut("envelope", || Geometry::from(g).envelope())?, &q[0])?;
        }
        ctx.cat("multi-polygon");
        let cs: Vec<C<T>> = polys.iter().flat_map(|q| q[0].iter().copied()).collect();
        let g = match r.below(3) {
            0 => MultiPolygon::new(polys.iter().map(|q| poly(r, q)).collect()),
            1 => MultiPolygon::from(polys.iter().map(|q| poly(r, q)).collect::<Vec<_>>()),
            _ if polys.iter().all(|q| q.len() == 1) => MultiPolygon::from(polys.iter().map(|q| q[0].clone()).collect::<Vec<_>>()),
            _ => MultiPolygon::new(polys.iter().map(|q| poly(r, q)).collect()),
        };
        check("MultiPolygon", sut("envelope", || g.envelope())?, &cs)?;
        check("Geometry of MultiPolygon", sut("envelope", || Geometry::from(g).envelope())?, &cs)?;
        check::<T>("Empty", sut("envelope", || Empty::new().envelope())?, &[])
    })();
    with_input(res, || format!("{} {:?}", T::NAME, polys))
}
