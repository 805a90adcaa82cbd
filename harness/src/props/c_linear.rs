//! C07 one-dimensional types against interval arithmetic.
use super::c_segments::{any_value, same};
use super::*;
use magog::linear::primitives as lp;
use magog::linear::primitives::HasEnvelope as _;
use magog::linear::types as lt;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C07",
        quick: 15_000_000,
        thorough: 1_500_000_000,
        floors: &[
            ("touching", 10_000_000),
            ("disjoint", 6_000_000),
            ("contained", 8_000_000),
            ("with the empty interval", 10_000_000),
            ("invalid: not finite", 900_000),
            ("invalid: not ordered", 1_000_000),
            ("single value interval", 3_000_000),
            ("empty point", 3_000_000),
            ("empty line", 3_000_000),
            ("no members", 600_000),
            ("many members", 50_000),
            ("NaN position", 200_000), ("NaN end", 10_000_000),
        ],
        rule: "A case is four intervals with ends from a small pool (lattice values, arbitrary values, infinities, extremes) or empty, explicitly built unordered bounds, and lists of up to 200 members turned into every 1-D type by every constructor and conversion. Non-trivial with two non-empty intervals. Oracle: interval arithmetic on (min, max) pairs.",
        case: c07,
    }]
}

type I<T> = Option<(T, T)>;

fn c07(_i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    dispatch!(r.chance(2, 5), intervals(r, ctx))
}

fn parts<T: Num>(e: &lp::Envelope<T>) -> I<T> {
    match e {
        lp::Envelope::Empty => None,
        lp::Envelope::Bounds { min, max } => Some((min.x, max.x)),
    }
}
fn lo<T: Num>(a: T, b: T) -> T {
    if b < a || a.is_nan() { b } else { a }
}
fn hi<T: Num>(a: T, b: T) -> T {
    if b > a || a.is_nan() { b } else { a }
}
fn cover<T: Num>(a: I<T>, b: I<T>) -> I<T> {
    match (a, b) {
        (None, x) | (x, None) => x,
        (Some(a), Some(b)) => Some((lo(a.0, b.0), hi(a.1, b.1))),
    }
}

fn intervals<T: Num>(r: &mut Rng, ctx: &mut Ctx) -> R {
    let style = r.below(4);
    let cv = Conv::rand::<T>(r);
    let value = |r: &mut Rng| -> T {
        loop {
            let v: T = match style {
                0 => cv.c(r.range(-2, 2)),
                1 => cv.c(r.range(-1000, 1000)),
                2 => any_value(r),
                _ => T::of_f64((r.unit() - 0.5) * 1e3),
            };
            if !v.is_nan() {
                return v;
            }
        }
    };
    let pool: Vec<T> = (0..5).map(|_| value(r)).collect();
    let p = |x: T| lp::Position::new(x);
    let iv: Vec<(I<T>, lp::Envelope<T>)> = (0..4)
        .map(|_| {
            if r.chance(1, 7) {
                return (None, if r.bool() { lp::Envelope::Empty } else { lp::Envelope::empty() });
            }
            let (a, b) = (*r.pick(&pool), *r.pick(&pool));
            let e = match r.below(3) {
                0 => lp::Envelope::new(p(a), p(b)),
                1 => lp::Envelope::from((p(a), p(b))),
                _ => lp::Envelope::from((a, b)),
            };
            (Some((lo(a, b), hi(a, b))), e)
        })
        .collect();
    ctx.eval();
    let mut h = H::new(7);
    for b in iv.iter().filter_map(|x| x.0) {
        h.u(b.0.bits()).u(b.1.bits());
    }
    if iv.iter().filter(|x| x.0.is_some()).count() > 1 {
        ctx.nontrivial(h.0);
    }
    ctx.sample(|| format!("{} {:?}", T::NAME, iv.iter().map(|x| x.0).collect::<Vec<_>>()));
    let res = algebra(r, ctx, &iv, &pool);
    with_input(res, || format!("{} intervals {:?}", T::NAME, iv))?;
    members(r, ctx, &pool)
}

fn algebra<T: Num>(r: &mut Rng, ctx: &mut Ctx, iv: &[(I<T>, lp::Envelope<T>)], pool: &[T]) -> R {
    let p = |x: T| lp::Position::new(x);
    for (b, e) in iv {
        if parts(e) != *b {
            return viol(format!("constructed interval is {:?}, ends in order {:?}", e, b));
        }
        if e.is_empty() != b.is_none() {
            return viol(format!("{:?}.is_empty() = {}", e, e.is_empty()));
        }
        if parts(&e.envelope()) != *b {
            return viol(format!("{:?}.envelope() = {:?}", e, e.envelope()));
        }
        let ok = b.map_or(true, |b| b.0.is_finite() && b.1.is_finite());
        if !ok {
            ctx.cat("invalid: not finite");
        }
        if b.map_or(false, |b| b.0 == b.1) {
            ctx.cat("single value interval");
        }
        let got = sut("Envelope::validate", || e.validate())?;
        if got.is_ok() != ok {
            return viol(format!("{:?}.validate() = {:?}", e, got));
        }
    }
    // ends given explicitly, in any order, possibly NaN
    let (a, b) = (
        if r.chance(1, 8) { any_value(r) } else { *r.pick(pool) },
        if r.chance(1, 8) { any_value(r) } else { *r.pick(pool) },
    );
    let e = lp::Envelope::Bounds { min: p(a), max: p(b) };
    let ok = a.is_finite() && b.is_finite() && a <= b;
    if a.is_finite() && b.is_finite() && a > b {
        ctx.cat("invalid: not ordered");
    }
    let got = sut("Envelope::validate", || e.validate())?;
    if got.is_ok() != ok {
        return viol(format!("{:?}.validate() = {:?}", e, got));
    }
    // an interval with a NaN end is neither met nor contained
    let (a2, b2) = *r.pick(&[(a, T::nan()), (T::nan(), b), (T::nan(), T::nan())]);
    let e = lp::Envelope::Bounds { min: p(a2), max: p(b2) };
    for f in iv.iter().map(|x| x.1) {
        ctx.cat("NaN end");
        if sut("intersects", || e.intersects(f) || f.intersects(e))? || sut("contains", || e.contains(f) || f.contains(e))? {
            return viol(format!("{:?} and {:?}: one meets or contains the other", e, f));
        }
    }
    let seg = lp::Segment::new(p(a), p(b));
    let got = sut("Segment::validate", || seg.validate())?;
    if got.is_ok() != (a.is_finite() && b.is_finite()) {
        return viol(format!("{:?}.validate() = {:?}", seg, got));
    }
    let got = sut("Position::validate", || p(a).validate())?;
    if got.is_ok() != a.is_finite() {
        return viol(format!("{:?}.validate() = {:?}", p(a), got));
    }
    for x in iv {
        for y in iv {
            match (x.0, y.0) {
                (Some(s), Some(t)) => {
                    if s.1 < t.0 || t.1 < s.0 {
                        ctx.cat("disjoint");
                    } else if s.1 == t.0 || t.1 == s.0 {
                        ctx.cat("touching");
                    }
                    if s.0 <= t.0 && t.1 <= s.1 && s != t {
                        ctx.cat("contained");
                    }
                }
                _ => ctx.cat("with the empty interval"),
            }
            let meet = match (x.0, y.0) {
                (Some(s), Some(t)) => s.0 <= t.1 && t.0 <= s.1,
                _ => false,
            };
            let has = match (x.0, y.0) {
                (Some(s), Some(t)) => s.0 <= t.0 && t.1 <= s.1,
                _ => false,
            };
            let (e, f) = (x.1, y.1);
            if sut("Envelope::intersects", || e.intersects(f))? != meet {
                return viol(format!("{:?}.intersects({:?}) = {}", e, f, !meet));
            }
            if sut("Envelope::contains", || e.contains(f))? != has {
                return viol(format!("{:?}.contains({:?}) = {}", e, f, !has));
            }
            let want = cover(x.0, y.0);
            let got = sut("Envelope::merge", || e.merge(f))?;
            if parts(&got) != want {
                return viol(format!("{:?}.merge({:?}) = {:?}", e, f, got));
            }
            let mut g = e;
            sut("Envelope::expand", || g.expand(f))?;
            if parts(&g) != want {
                return viol(format!("{:?}.expand({:?}) gives {:?}", e, f, g));
            }
        }
        // a value
        let v = *r.pick(pool);
        let has = x.0.map_or(false, |s| s.0 <= v && v <= s.1);
        if sut("Envelope::contains", || x.1.contains(p(v)))? != has {
            return viol(format!("{:?}.contains(position {:?}) = {}", x.1, v, !has));
        }
        let got = sut("Envelope::merge", || x.1.merge(p(v)))?;
        if parts(&got) != cover(x.0, Some((v, v))) {
            return viol(format!("{:?}.merge(position {:?}) = {:?}", x.1, v, got));
        }
        let mut g = x.1;
        sut("Envelope::expand", || g.expand(p(v)))?;
        if parts(&g) != cover(x.0, Some((v, v))) {
            return viol(format!("{:?}.expand(position {:?}) gives {:?}", x.1, v, g));
        }
    }
    let all: Vec<lp::Envelope<T>> = iv.iter().map(|x| x.1).collect();
    let got = sut("Envelope::of", || lp::Envelope::of(all.iter()))?;
    if parts(&got) != iv.iter().fold(None, |a, x| cover(a, x.0)) {
        return viol(format!("Envelope::of({:?}) = {:?}", all, got));
    }
    Ok(())
}

fn pt_is<T: Num>(q: Option<lt::Point<T>>, want: Option<T>) -> bool {
    match (q, want) {
        (None, None) => true,
        (Some(q), Some(w)) => same(q.0.x, w) && q.x().map_or(w.is_nan(), |x| same(x, w)) && q.is_empty() == w.is_nan(),
        _ => false,
    }
}

/// Points, lines and their collections by every constructor.
fn members<T: Num>(r: &mut Rng, ctx: &mut Ctx, pool: &[T]) -> R {
    let p = |x: T| lp::Position::new(x);
    let n = if r.chance(1, 60) { r.us(200) } else { r.more(6, 200) };
    if n == 0 {
        ctx.cat("no members");
    }
    if n > 20 {
        ctx.cat("many members");
    }
    let nan = r.chance(1, 10);
    let xs: Vec<T> = (0..2 * n).map(|_| if nan && r.chance(1, 4) { T::nan() } else { *r.pick(pool) }).collect();
    let of = |xs: &[T]| xs.iter().filter(|x| !x.is_nan()).fold(None, |a, x| cover(a, Some((*x, *x))));
    let res = (|| {
        // points
        let q = lt::Point::<T>::empty();
        ctx.cat("empty point");
        if !q.is_empty() || q.x().is_some() || q.envelope() != lp::Envelope::Empty {
            return viol(format!("Point::empty(): is_empty {}, x {:?}, envelope {:?}", q.is_empty(), q.x(), q.envelope()));
        }
        let q = lt::Line::<T>::empty();
        ctx.cat("empty line");
        if !q.is_empty() || q.start().is_some() || q.end().is_some() || q.envelope() != lp::Envelope::Empty {
            return viol("Line::empty() has ends, an envelope or is not empty");
        }
        for x in xs.iter().take(4).copied() {
            let q = match r.below(3) {
                0 => lt::Point::new(p(x)),
                1 => lt::Point::from(p(x)),
                _ => lt::Point::from(x),
            };
            if x.is_nan() {
                ctx.cat("NaN position");
            }
            if q.is_empty() != x.is_nan() || q.x() != (if x.is_nan() { None } else { Some(x) }) || parts(&q.envelope()) != of(&[x]) {
                return viol(format!("Point of {:?}: is_empty {}, x {:?}, envelope {:?}", x, q.is_empty(), q.x(), q.envelope()));
            }
        }
        for ab in xs.chunks(2).take(3) {
            let (a, b) = (ab[0], ab[1]);
            let s = match r.below(3) {
                0 => lp::Segment::new(p(a), p(b)),
                1 => lp::Segment::from((p(a), p(b))),
                _ => lp::Segment::from((a, b)),
            };
            if !same(s.start.x, a) || !same(s.end.x, b) {
                return viol(format!("Segment from {:?}, {:?} is {:?}", a, b, s));
            }
            let l = match r.below(3) {
                0 => lt::Line::new(p(a), p(b)),
                1 => lt::Line::from(s),
                _ => lt::Line::from((a, b)),
            };
            if l.is_empty() || !pt_is(l.start(), Some(a)) || !pt_is(l.end(), Some(b)) {
                return viol(format!("Line from {:?} to {:?}: is_empty {}, start {:?}, end {:?}", a, b, l.is_empty(), l.start(), l.end()));
            }
            for (n, got, want) in [
                ("+", sut("linear +", || p(a) + p(b))?, a + b),
                ("-", sut("linear -", || p(a) - p(b))?, a - b),
                ("*", sut("linear *", || p(a) * b)?, a * b),
                ("/", sut("linear /", || p(a) / b)?, a / b),
                ("min", sut("linear min", || p(a).min(p(b)))?, a.min(b)),
                ("max", sut("linear max", || p(a).max(p(b)))?, a.max(b)),
            ] {
                if !same(got.x, want) {
                    return viol(format!("{:?} {} {:?} = {:?}, want {:?}", a, n, b, got, want));
                }
            }
            match sut("linear to_hashable", || p(a).to_hashable())? {
                Ok(s) if !a.is_nan() && same(lp::Position::from(s).x, a) => {}
                Err(_) if a.is_nan() => {}
                o => return viol(format!("to_hashable of {:?} = {:?}", a, o.is_ok())),
            }
            if !a.is_nan() && !b.is_nan() {
                let want = of(&[a, b]);
                if s.min().x != lo(a, b) || s.max().x != hi(a, b) || parts(&s.envelope()) != want || parts(&l.envelope()) != want {
                    return viol(format!("{:?}: min {:?}, max {:?}, envelope {:?}, of the line {:?}", s, s.min(), s.max(), s.envelope(), l.envelope()));
                }
                let (u, v) = lp::Position::min_max(p(a), p(b));
                if u.x != lo(a, b) || v.x != hi(a, b) {
                    return viol(format!("min_max({:?}, {:?}) = {:?}, {:?}", a, b, u, v));
                }
            }
        }
        // multi-points
        let m = match r.below(4) {
            0 => lt::MultiPoint::new(xs.iter().map(|x| p(*x)).collect()),
            1 => lt::MultiPoint::from(xs.iter().map(|x| p(*x)).collect::<Vec<_>>()),
            2 if xs.is_empty() => lt::MultiPoint::empty(),
            _ => lt::MultiPoint::from(xs.clone()),
        };
        if m.num_points() != xs.len() {
            return viol(format!("MultiPoint of {} has {} points", xs.len(), m.num_points()));
        }
        for k in (0..xs.len() + 3).chain([usize::MAX, usize::MAX / 2 + 1]) {
            if !pt_is(sut("MultiPoint::get_point", || m.get_point(k))?, xs.get(k).copied()) {
                return viol(format!("MultiPoint.get_point({}) = {:?}, want {:?}", k, m.get_point(k), xs.get(k)));
            }
        }
        if xs.iter().all(|x| !x.is_nan()) || of(&xs).is_some() {
            if parts(&m.envelope()) != of(&xs) {
                return viol(format!("MultiPoint.envelope() = {:?}", m.envelope()));
            }
        }
        // multi-lines
        let segs: Vec<(T, T)> = xs.chunks(2).map(|c| (c[0], c[1])).collect();
        let m = match r.below(4) {
            0 => lt::MultiLine::new(segs.iter().map(|s| lp::Segment::new(p(s.0), p(s.1))).collect()),
            1 => lt::MultiLine::from(segs.iter().map(|s| lp::Segment::new(p(s.0), p(s.1))).collect::<Vec<_>>()),
            2 if segs.is_empty() => lt::MultiLine::empty(),
            _ => lt::MultiLine::from(segs.clone()),
        };
        if m.is_empty() != segs.is_empty() {
            return viol(format!("MultiLine of {} is_empty() = {}", segs.len(), m.is_empty()));
        }
        for k in (0..segs.len() + 3).chain([usize::MAX, usize::MAX / 2 + 1]) {
            let l = sut("MultiLine::get_line", || m.get_line(k))?;
            let ok = match (&l, segs.get(k)) {
                (None, None) => true,
                (Some(l), Some(s)) => !l.is_empty() && pt_is(l.start(), Some(s.0)) && pt_is(l.end(), Some(s.1)),
                _ => false,
            };
            if !ok {
                return viol(format!("MultiLine.get_line({}) = {:?}, want {:?}", k, l, segs.get(k)));
            }
        }
        if xs.iter().all(|x| !x.is_nan()) && parts(&m.envelope()) != of(&xs) {
            return viol(format!("MultiLine.envelope() = {:?}", m.envelope()));
        }
        Ok(())
    })();
    with_input(res, || format!("{} coordinates {:?}", T::NAME, xs))
}
