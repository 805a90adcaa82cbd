//! C16 validity does not depend on how a shape is written down.
use super::shapes::*;
use super::*;
use crate::gen::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C16",
        quick: 850_000,
        thorough: 85_000_000,
        floors: &[
            ("line string: valid", 30_000),
            ("line string: invalid", 20_000),
            ("multi-point: valid", 10_000),
            ("multi-point: invalid", 3_000),
            ("multi-line-string: valid", 20_000),
            ("multi-line-string: invalid", 10_000),
            ("polygon: valid", 20_000),
            ("polygon: invalid", 30_000),
            ("multi-polygon: valid", 10_000),
            ("multi-polygon: invalid", 10_000),
            ("reversed", 100_000),
            ("restarted", 80_000),
            ("reordered", 100_000),
            ("axes swapped or mirrored", 100_000),
            ("translated", 100_000),
            ("translated far away", 5_000),
            ("scaled", 100_000),
            ("other precision", 100_000),
            ("vertices inserted", 100_000),
            ("200+ positions", 700),
        ],
        rule: "A case is a lattice geometry (line string, multi-point, multi-line-string, polygon, multi-polygon; valid, broken or nearly valid; up to thousands of positions), judged by the real validator, then rewritten three times by random combinations of the listed transformations and judged again. Non-trivial with at least three positions. Oracle: the verdict of the original.",
        case: c16,
    }]
}

type Parts = Vec<Vec<Vec<P>>>;

fn c16(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    dispatch!(r.chance(2, 5), rewrite(i, r, ctx))
}

fn verdict<T: Num>(kind: u64, parts: &Parts, cv: &Conv) -> R<bool> {
    let m: Model<T> = Model::of(kind, parts, cv);
    let g = m.geom();
    let v = sut("validate", || match &g {
        Geometry::Empty(x) => x.validate(),
        Geometry::Point(x) => x.validate(),
        Geometry::LineString(x) => x.validate(),
        Geometry::Polygon(x) => x.validate(),
        Geometry::MultiPoint(x) => x.validate(),
        Geometry::MultiLineString(x) => x.validate(),
        Geometry::MultiPolygon(x) => x.validate(),
    })?;
    Ok(v.is_ok())
}

fn base(i: u64, r: &mut Rng, kind: u64, bits: u32, thorough: bool) -> Parts {
    let big = i % 150 == 0;
    let b = bound(r, bits);
    match kind {
        2 => {
            let mut v = if big {
                let n = 200 + r.size(0, if thorough { 6000 } else { 1500 });
                match r.below(3) {
                    0 => walk(r, n, b.max(50), true),
                    1 => star_ring(r, n, b.max(200)),
                    _ => long_chain(r, n).0,
                }
            } else if r.chance(1, 3) {
                any_ring(r, b)
            } else {
                any_chain(r, b)
            };
            if r.chance(1, 3) {
                mutate_chain(r, &mut v, b);
            }
            vec![vec![v]]
        }
        4 => {
            let n = if big { 200 + r.us(1000) } else { r.size(0, 12) };
            let mut v: Vec<P> = (0..n).map(|_| pt(r, b)).collect();
            if r.bool() {
                v.sort();
                v.dedup();
                r.shuffle(&mut v);
                if v.len() > 1 && r.bool() {
                    let (j, k) = (r.us(v.len()), r.us(v.len()));
                    v[j] = v[k];
                }
            }
            vec![vec![v]]
        }
        5 => {
            let mut v = if big {
                let k = 6 + r.range(0, 12);
                street_grid(k, 6 + r.range(0, 12))
            } else if r.chance(1, 5) {
                network(r)
            } else {
                any_mls(r, b)
            };
            if r.chance(1, 4) && !v.is_empty() {
                let k = r.us(v.len());
                mutate_chain(r, &mut v[k], b);
            }
            vec![v]
        }
        3 => {
            let mut q = if big {
                let s = 8 + r.us(10);
                let u = r.bool();
                grid_polys(r, s, s, 3, 5, u).into_iter().max_by_key(|q| q.iter().map(|l| l.len()).sum::<usize>()).unwrap_or_default()
            } else {
                any_poly(r, b)
            };
            if r.chance(1, 3) {
                mutate_poly(r, &mut q, b);
            }
            if q.is_empty() {
                q.push(vec![]);
            }
            vec![q]
        }
        _ => {
            let mut v = if big { super::c_polys::many_members(i / 150, r) } else { any_mpoly(r, b) };
            if r.chance(1, 4) && !v.is_empty() {
                let k = r.us(v.len());
                if !v[k].is_empty() {
                    mutate_poly(r, &mut v[k], b);
                }
            }
            v.retain(|q| !q.is_empty());
            v
        }
    }
}

const NAME: [(&str, &str); 7] = [
    ("", ""),
    ("", ""),
    ("line string: valid", "line string: invalid"),
    ("polygon: valid", "polygon: invalid"),
    ("multi-point: valid", "multi-point: invalid"),
    ("multi-line-string: valid", "multi-line-string: invalid"),
    ("multi-polygon: valid", "multi-polygon: invalid"),
];

fn rewrite<T: Num>(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    let kind = *r.pick(&[2, 2, 2, 3, 3, 3, 4, 5, 5, 6, 6]);
    // small enough for the other precision too, half of the time
    let bits = if std::mem::size_of::<T>() == 4 || r.bool() { 8 } else { 21 };
    let mut parts = base(i, r, kind, bits, ctx.thorough);
    let ext = extent(parts.iter().flatten().flatten()).max(1);
    let mut lim = 1i64 << T::BITS;
    if ext > lim / 2 {
        ctx.cat("skipped: too large");
        return Ok(());
    }
    if r.bool() {
        // room for lattice points on the edges
        let k = *r.pick(&[2, 3, 4, 6]);
        if ext * k <= lim / 2 {
            parts.iter_mut().flatten().flatten().for_each(|q| *q = p(q.x * k, q.y * k));
        }
    }
    ctx.eval();
    let n: usize = parts.iter().flatten().map(|l| l.len()).sum();
    if n >= 200 {
        ctx.cat("200+ positions");
    }
    if n > 2 {
        ctx.nontrivial(super::c_polys::hash_mp::<T>(16 + kind, &parts, 0));
    }
    let cv = Conv::plain(0);
    let show_it = |parts: &Parts, what: &str| format!("{} {} {}", what, NAME[kind as usize].0.split(':').next().unwrap(), show3(parts));
    ctx.sample(|| show_it(&parts, T::NAME));
    let want = with_input(verdict::<T>(kind, &parts, &cv), || show_it(&parts, T::NAME))?;
    ctx.cat(if want { NAME[kind as usize].0 } else { NAME[kind as usize].1 });
    for _ in 0..3 {
        let mut q = parts.clone();
        let mut cv = Conv::plain(0);
        let mut log: Vec<&'static str> = vec![];
        // one transformation most of the time, so that a difference is attributable
        let single = r.chance(1, 2);
        let pick = r.below(8);
        let on = |r: &mut Rng, k: u64| if single { pick == k } else { r.chance(1, 3) };
        let holes = |kind: u64| kind == 3 || kind == 6;
        if on(r, 7) && kind != 4 && kind != 5 {
            log.push("vertices inserted");
            for l in q.iter_mut().flatten() {
                *l = densify(r, l, 1, 2);
            }
        }
        if on(r, 0) && kind != 4 {
            log.push("reversed");
            for l in q.iter_mut().flatten() {
                if r.bool() {
                    l.reverse();
                }
            }
        }
        if on(r, 1) && (kind == 2 || holes(kind)) {
            for l in q.iter_mut().flatten() {
                if is_closed(l) {
                    *l = rand_rot(r, l);
                    if log.last() != Some(&"restarted") {
                        log.push("restarted");
                    }
                }
            }
        }
        if on(r, 2) && kind != 2 {
            log.push("reordered");
            match kind {
                4 => r.shuffle(&mut q[0][0]),
                5 => r.shuffle(&mut q[0]),
                _ => {
                    r.shuffle(&mut q);
                    for m in q.iter_mut() {
                        r.shuffle(&mut m[1..]);
                    }
                }
            }
        }
        if on(r, 3) {
            log.push("axes swapped or mirrored");
            let m = Map { m: *r.pick(&SYM), t: p(0, 0), very: false };
            q.iter_mut().flatten().flatten().for_each(|v| *v = m.at(*v));
        }
        let other = on(r, 6);
        let ext = extent(q.iter().flatten().flatten()).max(1);
        let fits32 = ext <= 1 << <f32 as Num>::BITS;
        let swap = other && fits32;
        if swap {
            lim = 1 << <f32 as Num>::BITS;
        }
        if on(r, 4) {
            log.push("translated");
            let room = lim - ext;
            let k = if r.bool() { room } else { room.min(40) };
            let d = pt(r, k);
            let out32 = (std::mem::size_of::<T>() == 4) != swap;
            let d = match if r.chance(1, 5) { far(r, ext, if out32 { <f32 as Num>::BITS } else { <f64 as Num>::BITS }, false) } else { None } {
                Some(t) => {
                    log.push("translated far away");
                    t
                }
                None => d,
            };
            q.iter_mut().flatten().flatten().for_each(|v| *v = p(v.x + d.x, v.y + d.y));
        }
        if on(r, 5) {
            log.push("scaled");
            let s = if swap { <f32 as Num>::MAX_SCALE } else { T::MAX_SCALE };
            let deep = if swap { <f32 as Num>::DEEP } else { T::DEEP };
            cv.s = if r.chance(1, 3) { r.range(deep.0 as i64, deep.1 as i64) } else { r.range(-(s as i64), s as i64) } as i32;
            if r.bool() {
                cv.nz = Cell::new(r.u64() | 1);
            }
        }
        let is32 = std::mem::size_of::<T>() == 4;
        let got = if swap {
            log.push("other precision");
            if is32 { verdict::<f64>(kind, &q, &cv) } else { verdict::<f32>(kind, &q, &cv) }
        } else {
            verdict::<T>(kind, &q, &cv)
        };
        for l in &log {
            ctx.cat(l);
        }
        lim = 1 << T::BITS;
        let res = got.and_then(|got| {
            if got != want {
                return viol(format!("validity changes from {} to {} when {:?} (scale 2^{}): {}", want, got, log, cv.s, show3(&q)));
            }
            Ok(())
        });
        with_input(res, || show_it(&parts, T::NAME))?;
    }
    Ok(())
}
