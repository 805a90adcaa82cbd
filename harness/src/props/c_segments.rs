//! C08 segment intersection, C09 side, containment, length and area primitives.
use super::*;
use crate::gen::*;
use magog::planar::primitives::{HasEnvelope, PositionLocation, SegmentIntersection, Triangle};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08",
            quick: 25_000_000,
            thorough: 2_500_000_000,
            floors: &[
                ("None", 1_000_000),
                ("far from the origin", 100_000),
                ("Cross", 400_000),
                ("at a shared end", 900_000),
                ("end on the inside", 100_000),
                ("collinear, one point", 200_000),
                ("Overlap", 600_000),
                ("identical", 200_000),
                ("zero length, meets", 700_000),
                ("zero length, apart", 100_000),
                ("near miss", 200_000),
                ("real: shared end", 600_000),
                ("real: clear", 100_000),
            ],
            rule: "A case is a pair of segments (tiny lattices, T contacts, shared ends, collinear overlaps of every kind, zero length, misses by the smallest possible cross product, large coordinates; integers times 2^s in f32 or f64; or arbitrary reals sharing an end or in clearly general position), judged in all argument orders and directions. Non-trivial when the bounding boxes meet. Oracle: exact integer classification.",
            case: c08,
        },
        Prop {
            id: "C09",
            quick: 25_000_000,
            thorough: 2_500_000_000,
            floors: &[
                ("side Left", 1_000_000),
                ("far from the origin", 100_000),
                ("side On", 2_000_000),
                ("side Right", 1_000_000),
                ("contained", 1_000_000),
                ("on the line, outside", 300_000),
                ("in the box, off the line", 1_000_000),
                ("zero-length segment", 700_000),
                ("NaN coordinate", 400_000),
                ("triangle", 5_000_000),
                ("length", 10_000_000),
            ],
            rule: "A case is three lattice points times 2^s in f32 or f64 (tiny lattices, points on, beside and beyond the segment, smallest possible cross products, degenerate segments and triangles), plus arbitrary coordinates including NaN, infinities and signed zeros for the coordinate-wise operations. Non-trivial when the three points are not all equal. Oracle: exact integer arithmetic.",
            case: c09,
        },
    ]
}

fn all_orders(a: P, b: P, c: P, d: P) -> [(P, P, P, P); 8] {
    [
        (a, b, c, d),
        (b, a, c, d),
        (a, b, d, c),
        (b, a, d, c),
        (c, d, a, b),
        (d, c, a, b),
        (c, d, b, a),
        (d, c, b, a),
    ]
}

/// Four lattice points for two segments.
fn quad(r: &mut Rng, b: i64) -> (P, P, P, P) {
    let (a0, a1) = (pt(r, b), pt(r, b));
    let rnd = |r: &mut Rng| pt(r, b);
    let beyond = |r: &mut Rng, u: P, v: P| {
        // on the line of [u,v], at a random lattice position from one length before to one after
        let g = gcd(v.x - u.x, v.y - u.y);
        if g == 0 {
            return u;
        }
        let k = r.range(-g, 2 * g);
        p(u.x + (v.x - u.x) / g * k, u.y + (v.y - u.y) / g * k)
    };
    match r.below(12) {
        0 | 1 => (a0, a1, rnd(r), rnd(r)),
        2 => (a0, a1, *r.pick(&[a0, a1]), rnd(r)),
        3 => (a0, a1, on_edge(r, a0, a1), rnd(r)),
        4 => (a0, a1, beyond(r, a0, a1), beyond(r, a0, a1)),
        5 => {
            let e = *r.pick(&[a0, a1]);
            (a0, a1, e, beyond(r, a0, a1))
        }
        6 => {
            // parallel, off by a little
            let (c, d) = (beyond(r, a0, a1), beyond(r, a0, a1));
            let t = p(r.range(-1, 1), r.range(-1, 1));
            (a0, a1, p(c.x + t.x, c.y + t.y), p(d.x + t.x, d.y + t.y))
        }
        7 => (a0, a1, near_point(r, a0, a1), if r.bool() { rnd(r) } else { near_point(r, a0, a1) }),
        8 => {
            let c = match r.below(4) {
                0 => a0,
                1 => on_edge(r, a0, a1),
                2 => near_point(r, a0, a1),
                _ => rnd(r),
            };
            (a0, a1, c, c)
        }
        9 => {
            let c = *r.pick(&[a0, a1]);
            (a0, a0, c, c)
        }
        10 => (a0, a1, *r.pick(&[a0, a1, p(a0.x, a1.y), p(a1.x, a0.y)]), *r.pick(&[a0, a1, p(a0.x, a1.y), p(a1.x, a0.y)])),
        _ => {
            // both ends on the other's line's box
            let k = r.range(1, 4);
            let m = p((a0.x + a1.x) / 2, (a0.y + a1.y) / 2);
            (a0, a1, p(m.x + r.range(-k, k), m.y + r.range(-k, k)), p(m.x + r.range(-k, k), m.y + r.range(-k, k)))
        }
    }
}

fn c08(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    if i % 6 == 5 {
        return dispatch!(r.chance(1, 3), real(r, ctx));
    }
    let small = r.chance(2, 5);
    let bits = if small { 10 } else { 24 };
    let b = shapes::bound(r, bits);
    let q = quad(r, b);
    if [q.0, q.1, q.2, q.3].iter().any(|v| v.x.abs() > 1 << bits || v.y.abs() > 1 << bits) {
        return Ok(());
    }
    let far = if r.chance(1, 10) { far(r, extent([q.0, q.1, q.2, q.3].iter()), if small { 10 } else { 24 }, true) } else { None };
    let q = match far {
        None => q,
        Some(t) => {
            ctx.cat("far from the origin");
            let f = |v: P| p(v.x + t.x, v.y + t.y);
            (f(q.0), f(q.1), f(q.2), f(q.3))
        }
    };
    dispatch!(small, exact(q, r, ctx))
}

fn exact<T: Num>((a, b, c, d): (P, P, P, P), r: &mut Rng, ctx: &mut Ctx) -> R {
    let meet = boxes_meet(a, b, c, d);
    let zero = a == b || c == d;
    if zero && !meet {
        return Ok(());
    }
    let cv = Conv::exact::<T>(r);
    let rel = seg_rel(a, b, c, d);
    ctx.eval();
    if meet {
        let mut h = H::new(8);
        h.u(std::mem::size_of::<T>() as u64).i(cv.s as i64);
        hash_pts(&mut h, &[a, b, c, d]);
        ctx.nontrivial(h.0);
    }
    match rel {
        Rel::None if zero => ctx.cat("zero length, apart"),
        Rel::None => {
            ctx.cat("None");
            if meet && [(a, b, c), (a, b, d), (c, d, a), (c, d, b)].iter().any(|t| {
                let g = gcd(t.1.x - t.0.x, t.1.y - t.0.y) as i128;
                let k = cross(t.0, t.1, t.2).abs();
                k != 0 && k <= g && in_box(t.0, t.1, t.2)
            }) {
                ctx.cat("near miss");
            }
        }
        Rel::Cross { .. } => ctx.cat("Cross"),
        Rel::Overlap(..) => {
            ctx.cat("Overlap");
            if (a == c && b == d) || (a == d && b == c) {
                ctx.cat("identical");
            }
        }
        Rel::At(_) if zero => ctx.cat("zero length, meets"),
        Rel::At(q) => {
            if cross(a, b, c) == 0 && cross(a, b, d) == 0 {
                ctx.cat("collinear, one point");
            } else if (q == a || q == b) && (q == c || q == d) {
                ctx.cat("at a shared end");
            } else {
                ctx.cat("end on the inside");
            }
        }
    }
    ctx.sample(|| format!("{} {} {} -> {:?}", T::NAME, show(&[a, b, c, d]), cv.show(), rel));
    for (a, b, c, d) in all_orders(a, b, c, d) {
        let rel = seg_rel(a, b, c, d);
        let (s, t): (Segment<T>, Segment<T>) = (cv.seg(a, b), cv.seg(c, d));
        let got = sut("intersect_segment", || s.intersect_segment(t));
        let res = got.and_then(|got| {
            let at = |q: P| Conv::plain(cv.s).pos::<T>(q);
            let ok = match (&got, rel) {
                (SegmentIntersection::None, Rel::None) => true,
                (SegmentIntersection::Position(g), Rel::At(q)) => *g == at(q),
                (SegmentIntersection::Position(g), Rel::Cross { num, den }) => {
                    let k = num as f64 / den as f64;
                    let scale = 2f64.powi(cv.s);
                    let m = [a, b, c, d].iter().map(|v| v.x.abs().max(v.y.abs())).max().unwrap() as f64 * scale;
                    let x = (a.x as f64 + (b.x - a.x) as f64 * k) * scale;
                    let y = (a.y as f64 + (b.y - a.y) as f64 * k) * scale;
                    let tol = 8.0 * T::eps() * m;
                    (g.x.f64() - x).abs() <= tol && (g.y.f64() - y).abs() <= tol
                }
                (SegmentIntersection::Segment(g), Rel::Overlap(lo, hi)) => {
                    let (lo, hi) = (at(lo), at(hi));
                    (g.start == lo && g.end == hi) || (g.start == hi && g.end == lo)
                }
                _ => false,
            };
            if ok {
                Ok(())
            } else {
                viol(format!("intersect_segment = {:?}, exactly {:?}", got, rel))
            }
        });
        with_input(res, || format!("{} [{:?} {:?}] with [{:?} {:?}] (lattice {} {})", T::NAME, s.start, s.end, t.start, t.end, show(&[a, b, c, d]), cv.show()))?;
    }
    Ok(())
}

/// Arbitrary coordinates: what segments sharing an end, or in clearly general position, do.
fn real<T: Num>(r: &mut Rng, ctx: &mut Ctx) -> R {
    let b = 1i64 << (T::REAL_BITS - 2);
    let bits = if T::BITS == 24 { 20 } else { 11 };
    let pick = |r: &mut Rng| -> P {
        match r.below(4) {
            0 => {
                let k = r.range(1, (T::REAL_BITS - 3) as i64);
                pt(r, b >> k)
            }
            _ => pt(r, b),
        }
    };
    let (a, j, d) = (pick(r), pick(r), pick(r));
    let cv = Conv::rand::<T>(r);
    if r.chance(2, 3) {
        if a == j || d == j || !clear_joint(a, j, d, bits) {
            ctx.cat("real: not clear, skipped");
            return Ok(());
        }
        ctx.eval();
        ctx.cat("real: shared end");
        let mut h = H::new(9);
        hash_pts(&mut h, &[a, j, d]);
        ctx.nontrivial(h.0);
        for (a, b, c, d) in all_orders(a, j, j, d) {
            let (s, t): (Segment<T>, Segment<T>) = (cv.seg(a, b), cv.seg(c, d));
            let res = sut("intersect_segment", || s.intersect_segment(t)).and_then(|got| {
                if got == SegmentIntersection::Position(cv.pos(j)) {
                    Ok(())
                } else {
                    viol(format!("intersect_segment = {:?}, common end {:?}", got, cv.pos::<T>(j)))
                }
            });
            with_input(res, || format!("{} [{:?} {:?}] with [{:?} {:?}]", T::NAME, s.start, s.end, t.start, t.end))?;
        }
    } else {
        let c = if r.bool() {
            pick(r)
        } else {
            // reflect d in the middle of [a,j], so that they are likely to cross
            let w = p(a.x.midpoint(j.x).wrapping_mul(2) - d.x, a.y.midpoint(j.y).wrapping_mul(2) - d.y);
            if w.x.abs() > b || w.y.abs() > b {
                return Ok(());
            }
            w
        };
        if !boxes_meet(a, j, c, d) || !clear_pair(a, j, c, d, bits) {
            ctx.cat("real: not clear, skipped");
            return Ok(());
        }
        ctx.eval();
        ctx.cat("real: clear");
        let want = match seg_rel(a, j, c, d) {
            Rel::None => false,
            Rel::Cross { .. } => true,
            x => panic!("clear pair related by {:?}", x),
        };
        for (a, b, c, d) in all_orders(a, j, c, d) {
            let (s, t): (Segment<T>, Segment<T>) = (cv.seg(a, b), cv.seg(c, d));
            let res = sut("intersect_segment", || s.intersect_segment(t)).and_then(|got| {
                let ok = match &got {
                    SegmentIntersection::None => !want,
                    SegmentIntersection::Position(g) => want && g.x.is_finite() && g.y.is_finite(),
                    _ => false,
                };
                if ok {
                    Ok(())
                } else {
                    viol(format!("intersect_segment = {:?}, exactly: {}", got, if want { "they cross" } else { "disjoint" }))
                }
            });
            with_input(res, || format!("{} [{:?} {:?}] with [{:?} {:?}]", T::NAME, s.start, s.end, t.start, t.end))?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- C09

fn c09(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    if i % 5 == 4 {
        return dispatch!(r.chance(1, 3), wise(r, ctx));
    }
    let small = r.chance(2, 5);
    let bits = if small { 10 } else { 24 };
    let b = shapes::bound(r, bits);
    let (a, e, q, _) = quad(r, b);
    let q = match r.below(8) {
        0 => near_point(r, a, e),
        1 => pt(r, b),
        2 if a != e => {
            let g = gcd(e.x - a.x, e.y - a.y);
            let k = *r.pick(&[-1, 0, 1, g - 1, g, g + 1]);
            p(a.x + (e.x - a.x) / g * k, a.y + (e.y - a.y) / g * k)
        }
        3 => p(r.range(a.x.min(e.x), a.x.max(e.x)), r.range(a.y.min(e.y), a.y.max(e.y))),
        _ => q,
    };
    let a1 = if r.chance(1, 20) { e } else { a };
    if [a1, e, q].iter().any(|v| v.x.abs() > 1 << bits || v.y.abs() > 1 << bits) {
        return Ok(());
    }
    if r.chance(1, 10) {
        if let Some(t) = far(r, extent([a1, e, q].iter()), bits, true) {
            ctx.cat("far from the origin");
            let f = |v: P| p(v.x + t.x, v.y + t.y);
            return dispatch!(small, prim(f(a1), f(e), f(q), r, ctx));
        }
    }
    dispatch!(small, prim(a1, e, q, r, ctx))
}

fn prim<T: Num>(a: P, b: P, q: P, r: &mut Rng, ctx: &mut Ctx) -> R {
    let cv = Conv::exact::<T>(r);
    let k = cross(a, b, q);
    ctx.eval();
    if !(a == b && b == q) {
        let mut h = H::new(9);
        h.u(std::mem::size_of::<T>() as u64).i(cv.s as i64);
        hash_pts(&mut h, &[a, b, q]);
        ctx.nontrivial(h.0);
    }
    ctx.sample(|| format!("{} {} {}", T::NAME, show(&[a, b, q]), cv.show()));
    let side = |k: i128| {
        if k > 0 {
            PositionLocation::Left
        } else if k == 0 {
            PositionLocation::On
        } else {
            PositionLocation::Right
        }
    };
    ctx.cat(match side(k) {
        PositionLocation::Left => "side Left",
        PositionLocation::On => "side On",
        PositionLocation::Right => "side Right",
    });
    let s: Segment<T> = cv.seg(a, b);
    let t: Segment<T> = cv.seg(b, a);
    let z: Position<T> = cv.pos(q);
    // value * 2^e must be the integer w exactly
    let is = |v: T, w: i128, e: i32| v.f64() == w as f64 * crate::num::pow2(e);
    let res = (|| {
        let g = sut("position_location", || s.position_location(z))?;
        if g != side(k) {
            return viol(format!("position_location = {:?}, oriented area {}", g, k));
        }
        let g = sut("position_location", || t.position_location(z))?;
        if g != side(-k) {
            return viol(format!("position_location of the reversed segment = {:?}, oriented area {}", g, -k));
        }
        let on = on_seg(a, b, q);
        if a == b {
            ctx.cat("zero-length segment");
        }
        if on {
            ctx.cat("contained");
        } else if k == 0 && a != b {
            ctx.cat("on the line, outside");
        } else if in_box(a, b, q) {
            ctx.cat("in the box, off the line");
        }
        for (n, s) in [("", s), ("reversed ", t)] {
            let g = sut("Segment::contains", || s.contains(z))?;
            if g != on {
                return viol(format!("{}segment contains({:?}) = {}, exactly {}", n, z, g, on));
            }
        }
        // lengths
        let (dx, dy) = ((b.x - a.x) as i128, (b.y - a.y) as i128);
        let l2 = dx * dx + dy * dy;
        for s in [s, t] {
            let g = sut("length_squared", || s.length_squared())?;
            if !is(g, l2, 2 * cv.s) {
                return viol(format!("length_squared = {:?}, exactly {} * 2^{}", g, l2, 2 * cv.s));
            }
            let g = sut("length", || s.length())?;
            let w = (l2 as f64).sqrt() * 2f64.powi(cv.s);
            ctx.cat("length");
            if (g.f64() - w).abs() > w * T::eps() * 2.0 || (l2 == 0) != (g == T::zero()) {
                return viol(format!("length = {:?}, exactly {}", g, w));
            }
        }
        if extent([a, b].iter()) >> T::BITS > 1 {
            // products of coordinates are rounded
            return triangles::<T>(&[a, b, q], k, &cv, r, ctx);
        }
        let det = a.x as i128 * b.y as i128 - a.y as i128 * b.x as i128;
        let g = sut("determinant", || s.determinant())?;
        if !is(g, det, 2 * cv.s) {
            return viol(format!("determinant = {:?}, exactly {} * 2^{}", g, det, 2 * cv.s));
        }
        // products of positions
        let (u, v): (Position<T>, Position<T>) = (cv.pos(a), cv.pos(b));
        let g = sut("cross", || Position::cross(u, v))?;
        if !is(g, det, 2 * cv.s) {
            return viol(format!("Position::cross = {:?}, exactly {} * 2^{}", g, det, 2 * cv.s));
        }
        let dot = a.x as i128 * b.x as i128 + a.y as i128 * b.y as i128;
        let g = sut("dot", || Position::dot(u, v))?;
        if !is(g, dot, 2 * cv.s) {
            return viol(format!("Position::dot = {:?}, exactly {} * 2^{}", g, dot, 2 * cv.s));
        }
        triangles::<T>(&[a, b, q], k, &cv, r, ctx)
    })();
    with_input(res, || format!("{} {} {}", T::NAME, show(&[a, b, q]), cv.show()))
}

fn triangles<T: Num>(pts: &[P; 3], k: i128, cv: &Conv, r: &mut Rng, ctx: &mut Ctx) -> R {
        ctx.cat("triangle");
        let is = |v: T, w: i128, e: i32| v.f64() == w as f64 * crate::num::pow2(e);
        for (i, j, l, sign) in [(0, 1, 2, 1), (1, 2, 0, 1), (2, 0, 1, 1), (1, 0, 2, -1), (0, 2, 1, -1), (2, 1, 0, -1)] {
            let c: [Position<T>; 3] = [cv.pos(pts[i]), cv.pos(pts[j]), cv.pos(pts[l])];
            let tr = if r.bool() { Triangle::new(c[0], c[1], c[2]) } else { Triangle::from((c[0], c[1], c[2])) };
            let g = sut("signed_area", || tr.signed_area())?;
            if !is(g, k * sign, 2 * cv.s - 1) {
                return viol(format!("signed_area = {:?}, exactly {} * 2^{} of {:?}", g, k * sign, 2 * cv.s - 1, c));
            }
            let g = sut("area", || tr.area())?;
            if !is(g, k.abs(), 2 * cv.s - 1) {
                return viol(format!("area = {:?}, exactly {} * 2^{} of {:?}", g, k.abs(), 2 * cv.s - 1, c));
            }
            if sut("to_array", || tr.to_array())? != c {
                return viol("Triangle::to_array differs from the corners given");
            }
        }
        Ok(())
}

/// Same number (any NaN equals any NaN, zeros compare equal).
pub fn same<T: Num>(a: T, b: T) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

pub fn any_value<T: Num>(r: &mut Rng) -> T {
    match r.below(12) {
        0 => T::nan(),
        1 => T::infinity(),
        2 => T::neg_infinity(),
        3 => T::zero(),
        4 => -T::zero(),
        5 => *r.pick(&[T::max_fin(), -T::max_fin(), T::min_sub(), -T::min_sub()]),
        6 => T::rand_bits(r.u64()),
        7 | 8 => T::of_f64(r.range(-3, 3) as f64),
        9 => T::of_f64(r.unit()),
        _ => T::of_f64((r.unit() - 0.5) * 1e6),
    }
}

/// Coordinate-wise operations on arbitrary coordinates.
fn wise<T: Num>(r: &mut Rng, ctx: &mut Ctx) -> R {
    let v: Vec<T> = (0..5).map(|_| any_value::<T>(r)).collect();
    let (u, w, k) = (Position::new(v[0], v[1]), Position::new(v[2], v[3]), v[4]);
    ctx.eval();
    let mut h = H::new(99);
    for x in &v {
        h.u(x.bits());
    }
    ctx.nontrivial(h.0);
    if v.iter().any(|x| x.is_nan()) {
        ctx.cat("NaN coordinate");
    }
    let lo = |a: T, b: T| if a.is_nan() { b } else if b.is_nan() { a } else if b < a { b } else { a };
    let hi = |a: T, b: T| if a.is_nan() { b } else if b.is_nan() { a } else if b > a { b } else { a };
    let res = (|| {
        let is = |what: &str, g: Position<T>, x: T, y: T| {
            if same(g.x, x) && same(g.y, y) {
                Ok(())
            } else {
                viol(format!("{} = {:?}, component-wise ({:?}, {:?})", what, g, x, y))
            }
        };
        is("u + w", sut("+", || u + w)?, u.x + w.x, u.y + w.y)?;
        is("u - w", sut("-", || u - w)?, u.x - w.x, u.y - w.y)?;
        is("u * k", sut("*", || u * k)?, u.x * k, u.y * k)?;
        is("u / k", sut("/", || u / k)?, u.x / k, u.y / k)?;
        is("min", sut("min", || u.min(w))?, lo(u.x, w.x), lo(u.y, w.y))?;
        is("max", sut("max", || u.max(w))?, hi(u.x, w.x), hi(u.y, w.y))?;
        let (a, b) = sut("min_max", || Position::min_max(u, w))?;
        is("min_max.0", a, lo(u.x, w.x), lo(u.y, w.y))?;
        is("min_max.1", b, hi(u.x, w.x), hi(u.y, w.y))?;
        let (a, b) = sut("Coordinate::min_max", || magog::Coordinate::min_max(&u.x, w.x))?;
        is("Coordinate::min_max", Position::new(a, b), lo(u.x, w.x), hi(u.x, w.x))?;
        is("from tuple", Position::from((u.x, u.y)), u.x, u.y)?;
        is("from array", Position::from([u.x, u.y]), u.x, u.y)?;
        match sut("to_hashable", || u.to_hashable())? {
            Ok(s) => {
                if u.x.is_nan() || u.y.is_nan() {
                    return viol("to_hashable of a NaN position succeeded");
                }
                is("to_hashable and back", Position::from(s), u.x, u.y)?;
                if let Ok(t) = w.to_hashable() {
                    if (s == t) != (u == w) {
                        return viol("equality of hashable positions differs from that of the positions");
                    }
                }
            }
            Err(_) => {
                if !u.x.is_nan() && !u.y.is_nan() {
                    return viol("to_hashable of a position without NaN failed");
                }
            }
        }
        let fin = |x: T| x.is_finite();
        for (n, ok, got) in [
            ("Position", fin(u.x) && fin(u.y), sut("Position::validate", || u.validate())?),
            ("Segment", [u.x, u.y, w.x, w.y].iter().all(|x| fin(*x)), sut("Segment::validate", || Segment::new(u, w).validate())?),
        ] {
            if got.is_ok() != ok {
                return viol(format!("{}::validate = {:?}, all finite: {}", n, got, ok));
            }
        }
        let s = Segment::from((u, w));
        if !(same(s.start.x, u.x) && same(s.start.y, u.y) && same(s.end.x, w.x) && same(s.end.y, w.y)) {
            return viol("Segment::from swaps or changes its ends");
        }
        let _ = sut("Segment::envelope", || s.envelope())?;
        Ok(())
    })();
    with_input(res, || format!("{} u {:?} w {:?} k {:?}", T::NAME, u, w, k))
}
