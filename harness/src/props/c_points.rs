//! C11 multi-point validity and simplification.
use super::c_segments::any_value;
use super::*;
use crate::gen::pt;
use std::cmp::Ordering;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C11",
        quick: 5_000_000,
        thorough: 500_000_000,
        floors: &[
            ("valid", 500_000),
            ("duplicate", 400_000),
            ("duplicate only up to the sign of zero", 10_000),
            ("non-finite", 200_000),
            ("empty", 200_000),
            ("nothing left", 200_000),
            ("500 points or more", 3_000),
            ("member asked for", 1_000_000),
            ("non-member asked for", 3_000_000),
        ],
        rule: "A case is a list of 0 to 5000 points with coordinates from small lattices, arbitrary values (signed zeros, NaN, infinities, extreme magnitudes) or neighbouring floats, with planted duplicates far apart in the list. Non-trivial with at least two points. Oracle: sort and compare.",
        case: c11,
    }]
}

fn c11(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    dispatch!(r.chance(2, 5), points(i, r, ctx))
}

fn ord<T: Num>(a: &(T, T), b: &(T, T)) -> Ordering {
    a.0.partial_cmp(&b.0).unwrap().then(a.1.partial_cmp(&b.1).unwrap())
}

fn list<T: Num>(i: u64, r: &mut Rng) -> Vec<(T, T)> {
    let n = if i < 16 {
        100_000 + r.us(100_000)
    } else if i < 200 {
        200 + r.us(4800)
    } else if r.chance(1, 300) {
        300 + r.us(700)
    } else {
        r.size(0, 40)
    };
    let style = if i < 2_000 { r.below(4) } else { r.below(8) };
    let mut v: Vec<(T, T)> = (0..n)
        .map(|k| match style {
            0 => {
                // all different
                (T::of_f64(k as f64), T::of_f64(r.unit()))
            }
            1 => (T::of_f64(r.unit()), T::of_f64(r.unit())),
            2 => {
                let q = pt(r, 2 + n as i64);
                (T::of_f64(q.x as f64), T::of_f64(q.y as f64))
            }
            3 => (T::of_f64(1.0), T::of_f64(k as f64)),
            4 => {
                let q = pt(r, 2);
                (T::of_f64(q.x as f64), T::of_f64(q.y as f64))
            }
            5 => (any_value(r), any_value(r)),
            6 => {
                let mut f = || {
                    let mut x = T::one();
                    for _ in 0..r.below(5) {
                        x = x.next_up();
                    }
                    x
                };
                (f(), f())
            }
            _ => {
                // zeros of either sign
                let f = |r: &mut Rng| if r.bool() { T::zero() } else { -T::zero() };
                match r.below(3) {
                    0 => (f(r), T::of_f64(r.range(0, 6) as f64)),
                    1 => (T::of_f64(r.range(0, 6) as f64), f(r)),
                    _ => (T::of_f64(r.range(1, 9) as f64), T::of_f64(r.range(1, 9) as f64)),
                }
            }
        })
        .collect();
    if r.chance(2, 5) && !v.is_empty() {
        // plant a duplicate
        let (a, k) = (r.spot(v.len()), r.spot(v.len() + 1));
        let mut q = v[a];
        if r.chance(1, 4) {
            let nz = |x: T| if x == T::zero() { -x } else { x };
            q = (nz(q.0), nz(q.1));
        }
        v.insert(k, q);
    }
    if r.chance(1, 8) && !v.is_empty() {
        let bad = *r.pick(&[T::nan(), T::infinity(), T::neg_infinity()]);
        let k = r.spot(v.len());
        if r.bool() {
            v[k].0 = bad;
        } else {
            v[k].1 = bad;
        }
    }
    if style == 0 || style == 3 {
        r.shuffle(&mut v);
    }
    v
}

fn build<T: Num>(v: &[(T, T)], r: &mut Rng) -> MultiPoint<T> {
    match r.below(3) {
        0 => MultiPoint::new(v.iter().map(|q| Point::new(Position::new(q.0, q.1))).collect()),
        1 => MultiPoint::from(v.to_vec()),
        _ => MultiPoint::from(v.iter().map(|q| Position::new(q.0, q.1)).collect::<Vec<_>>()),
    }
}

fn points<T: Num>(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    let v = list::<T>(i, r);
    let mut h = H::new(11);
    for q in &v {
        h.u(q.0.bits()).u(q.1.bits());
    }
    if v.len() > 1 {
        ctx.nontrivial(h.0);
    }
    ctx.eval();
    ctx.sample(|| format!("{} {:?}", T::NAME, v));
    let finite = v.iter().all(|q| q.0.is_finite() && q.1.is_finite());
    let mut want: Vec<(T, T)> = v.iter().copied().filter(|q| q.0.is_finite() && q.1.is_finite()).collect();
    want.sort_by(ord);
    let n = want.len();
    let bits_dup = {
        let mut b: Vec<(u64, u64)> = want.iter().map(|q| (q.0.bits(), q.1.bits())).collect();
        b.sort_unstable();
        b.windows(2).any(|w| w[0] == w[1])
    };
    want.dedup_by(|a, b| a.0 == b.0 && a.1 == b.1);
    let dup = want.len() < n;
    let valid = finite && !dup;
    if v.is_empty() {
        ctx.cat("empty");
    }
    if valid {
        ctx.cat("valid");
    } else if !finite {
        ctx.cat("non-finite");
    } else {
        ctx.cat("duplicate");
        if !bits_dup {
            ctx.cat("duplicate only up to the sign of zero");
        }
    }
    if v.len() >= 500 {
        ctx.cat("500 points or more");
    }
    let res = (|| {
        let m = sut("MultiPoint::new", || build(&v, r))?;
        let got = sut("MultiPoint::validate", || m.validate())?;
        let simple = sut("MultiPoint::is_simple", || m.is_simple())?;
        judge("MultiPoint", valid, if !finite { "non-finite" } else if dup { "duplicate" } else { "fine" }, got, simple)?;

        let check = |g: Geometry<T>, what: &str| -> R {
            if want.is_empty() {
                return match g {
                    Geometry::Empty(_) => Ok(()),
                    g => viol(format!("{} = {:?}, no finite point given", what, g)),
                };
            }
            let m = match g {
                Geometry::MultiPoint(m) => m,
                g => return viol(format!("{} = {:?}, not a multi-point", what, g)),
            };
            let gv: Vec<(T, T)> = m.points.iter().map(|q| (q.0.x, q.0.y)).collect();
            if gv != want {
                return viol(format!("{} = {:?}, expected {:?}", what, gv, want));
            }
            if let Err(e) = sut("validate", || m.validate())? {
                return viol(format!("{} is invalid: {}", what, e));
            }
            Ok(())
        };
        if want.is_empty() {
            ctx.cat("nothing left");
        }
        check(sut("make_simple", || m.make_simple())?, "make_simple")?;
        if let Geometry::MultiPoint(s) = sut("make_simple", || m.make_simple())? {
            check(sut("make_simple", || s.make_simple())?, "make_simple twice")?;
        }
        let mut u = v.clone();
        r.shuffle(&mut u);
        let m2 = sut("MultiPoint::new", || build(&u, r))?;
        check(sut("make_simple", || m2.make_simple())?, "make_simple of the shuffled list")?;
        let got = sut("MultiPoint::validate", || m2.validate())?;
        if got.is_ok() != valid {
            return viol(format!("validate of the shuffled list = {:?}", got));
        }
        if m.num_points() != v.len() || m.points.len() != v.len() {
            return viol(format!("num_points = {}, given {}", m.num_points(), v.len()));
        }
        // the list itself is as given
        for (g, q) in m.points.iter().zip(&v) {
            if g.0.x.bits() != q.0.bits() || g.0.y.bits() != q.1.bits() {
                return viol(format!("point {:?} stored as {:?}", q, g));
            }
        }
        for _ in 0..4 {
            let mut q = if v.is_empty() || r.chance(1, 4) { (any_value(r), any_value(r)) } else { v[r.us(v.len())] };
            match r.below(6) {
                0 => q.0 = q.0.next_up(),
                1 => q.1 = any_value(r),
                2 => q = (if q.0 == T::zero() { -q.0 } else { q.0 }, q.1),
                3 => q = (q.1, q.0),
                _ => (),
            }
            let want = v.iter().any(|w| w.0 == q.0 && w.1 == q.1);
            ctx.cat(if want { "member asked for" } else { "non-member asked for" });
            let got = sut("contains_point", || m.contains_point(&Point::new(Position::new(q.0, q.1))))?;
            if got != want {
                return viol(format!("contains_point({:?}) = {}", q, got));
            }
        }
        Ok(())
    })();
    with_input(res, || format!("{} {:?}", T::NAME, v))
}
