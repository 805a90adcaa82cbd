//! C13 polygon validity, C14 multi-polygon validity, C24 representative point.
use super::c_lines::real_scale;
use super::shapes::*;
use super::*;
use crate::gen::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            quick: 1_000_000,
            thorough: 100_000_000,
            floors: &[
                ("Valid", 90_000),
                ("valid, holes", 40_000),
                ("valid, rings touch", 30_000),
                ("HoleCrosses", 60_000),
                ("HoleOutside", 10_000),
                ("HolesCross", 10_000),
                ("HolesOverlap", 200),
                ("RingInvalid", 10_000),
                ("NotClosed", 20_000),
                ("many holes", 3_000), ("over 65536 vertices", 24),
                ("oracles compared", 30_000),
                ("real", 30_000),
            ],
            rule: "A case is a list of rings (exterior first): random lattice rings, polyomino regions with holes, inscribed and homothetic holes, fans of holes in one vertex, combs and spirals, hundreds of holes, perturbations; mapped by an integer affine map and 2^s to f32 or f64, each ring rotated and reversed at random. Non-trivial when there is at least one hole. Oracle: exact edge contacts plus slab decomposition; independently cross-checked by exact classification of edge middles.",
            case: c13,
        },
        Prop {
            id: "C14",
            quick: 550_000,
            thorough: 55_000_000,
            floors: &[
                ("Valid", 70_000),
                ("valid, members touch", 20_000),
                ("valid, nested", 7_000),
                ("Cross", 8_000),
                ("SharedEdge", 10_000),
                ("Overlap", 3_000),
                ("member invalid", 30_000),
                ("many members", 1_500), ("over 65536 vertices", 24),
                ("empty member", 20_000),
            ],
            rule: "A case is a list of polygons: 4-connected regions of random grids (touching in corners, nested in holes), frames in frames, holes filled by islands, rings round a common vertex, chessboards with hundreds of members, perturbed, shuffled. Non-trivial when at least two members are non-empty. Oracle: exact edge contacts plus slab decomposition by even-odd parity of all rings.",
            case: c14,
        },
        Prop {
            id: "C24",
            quick: 1_000_000,
            thorough: 100_000_000,
            floors: &[("polygon with holes", 80_000), ("multi-polygon", 100_000), ("empty", 20_000), ("first member empty", 8_000)],
            rule: "Valid (by the exact oracle) polygons and multi-polygons, and arbitrary ones for presence of an answer; non-trivial when valid with a hole or several members. Oracle: exact point location, with a tolerance of 2^-20 of the extent for points not on the lattice.",
            case: c24,
        },
    ]
}

fn run_poly<T: Num>(v: &[Vec<P>], want: bool, why: &str, cv: &Conv) -> R {
    let r = (|| {
        let m: Polygon<T> = sut("Polygon::new", || cv.poly(v))?;
        let got = sut("Polygon::validate", || m.validate())?;
        let simple = sut("Polygon::is_simple", || m.is_simple())?;
        judge("Polygon", want, why, got, simple)
    })();
    with_input(r, || format!("{} {} {}", T::NAME, show2(v), cv.show()))
}

/// Rings of over 65536 vertices, the verdict known by construction.
fn long_poly(i: u64, r: &mut Rng, ctx: &mut Ctx, members: bool) -> R {
    let (e, mut h) = long_rings(r);
    let n = h.len() as i64;
    let k = r.spot(h.len() - 3);
    let x = h[k].x.min(2 * n - 20);
    let tri = |x: i64, y: i64, d: i64| vec![p(x, y), p(x + 1, y + d), p(x - 1, y + d), p(x, y)];
    // what is added, and whether a polygon stays valid with it as a hole, or a
    // multi-polygon with it as a member
    let (extra, hole_ok, member_ok) = match i % 8 {
        0 => (None, true, true),
        1 => {
            h[k].y = *r.pick(&[-30, -13]);
            (None, false, false)
        }
        2 => {
            h[k].y = *r.pick(&[50, 55]);
            (None, false, false)
        }
        3 => (Some(rect_ring(x, 14, x + 3, 22)), true, false),
        4 => (Some(rect_ring(x, 38, x + 3, 48)), false, true),
        5 => (Some(rect_ring(x, 45, x + 3, 55)), false, false),
        6 => (Some(tri(x + 1, 50, *r.pick(&[3, -3]))), false, false),
        _ => (Some(rect_ring(x, 61, x + 3, 70)), false, true),
    };
    // touching the hole's straight edge from outside, it is a hole apart; from inside, an island
    let up = extra.as_ref().map_or(false, |t: &Vec<P>| i % 8 == 6 && t[1].y > 50);
    let (hole_ok, member_ok) = if i % 8 == 6 { (up, !up) } else { (hole_ok, member_ok) };
    let m = rand_map(r, 2 * n + 200, 53 / 2);
    let turn = |r: &mut Rng, v: Vec<P>| rand_rot(r, &m.all(&v));
    let mut q = vec![turn(r, e), turn(r, h)];
    let extra = extra.map(|x| turn(r, x));
    let cv = Conv::rand::<f64>(r);
    ctx.eval();
    ctx.cat("over 65536 vertices");
    if m.very {
        return Ok(());
    }
    if members {
        let mut ps = vec![q];
        ps.extend(extra.map(|x| vec![x]));
        r.shuffle(&mut ps);
        ctx.nontrivial(hash_mp::<f64>(14, &ps, cv.s));
        run_mpoly::<f64>(&ps, member_ok, "by construction", &cv)
    } else {
        q.extend(extra);
        if r.bool() && q.len() == 3 {
            q.swap(1, 2);
        }
        ctx.nontrivial(hash_vv::<f64>(13, &q, cv.s));
        run_poly::<f64>(&q, hole_ok, "by construction", &cv)
    }
}

fn c13(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    if i < 24 {
        return long_poly(i, r, ctx, false);
    }
    if i < 4_000 {
        let q = many_holes(i, r);
        ctx.cat("many holes");
        let e = extent(q.iter().flatten());
        return dispatch!(false, poly(&q, e, r, ctx));
    }
    if i % 8 == 7 {
        let small = r.chance(1, 3);
        return dispatch!(small, poly_real(r, ctx));
    }
    let b = bound(r, 24);
    let q = any_poly(r, b);
    let e = extent(q.iter().flatten());
    if e > 1 << 24 {
        return Ok(());
    }
    let small = e <= 1 << 10 && r.chance(2, 5);
    dispatch!(small, poly(&q, e, r, ctx))
}

fn poly<T: Num>(q: &[Vec<P>], e: i64, r: &mut Rng, ctx: &mut Ctx) -> R {
    let m = rand_map(r, e, T::BITS);
    let mut q = m.all2(q);
    for ring in q.iter_mut() {
        *ring = rand_rot(r, ring);
        if r.chance(1, 10) {
            *ring = densify(r, ring, 1, 2);
        }
    }
    let (verdict, touches) = poly_check(&q);
    if m.very && !matches!(verdict, PolyV::Valid | PolyV::HoleOutside | PolyV::HolesOverlap) {
        return Ok(());
    }
    let cv = Conv::exact::<T>(r);
    ctx.eval();
    ctx.cat(match verdict {
        PolyV::Valid => "Valid",
        PolyV::NotClosed => "NotClosed",
        PolyV::RingInvalid => "RingInvalid",
        PolyV::HoleCrosses => "HoleCrosses",
        PolyV::HoleOutside => "HoleOutside",
        PolyV::HolesCross => "HolesCross",
        PolyV::HolesOverlap => "HolesOverlap",
    });
    if verdict == PolyV::Valid {
        if q.len() > 1 {
            ctx.cat("valid, holes");
        }
        if touches > 0 {
            ctx.cat("valid, rings touch");
        }
    }
    if q.len() > 1 {
        ctx.nontrivial(hash_vv::<T>(13, &q, cv.s));
    }
    // the two oracles against each other
    if r.chance(1, 8) && q.len() > 1 && q.len() < 8 && !matches!(verdict, PolyV::NotClosed | PolyV::RingInvalid) {
        for h in 1..q.len() {
            let (a, b) = (ring_rel(&q[0], &q[h]), ring_rel_mid(&q[0], &q[h]));
            assert!(a == b, "harness: oracles disagree {:?} {:?} on {}", a, b, show2(&q));
            ctx.cat("oracles compared");
        }
    }
    ctx.sample(|| format!("{} {} {} -> {:?}", T::NAME, show2(&q), cv.show(), verdict));
    run_poly::<T>(&q, verdict == PolyV::Valid, &format!("{:?}", verdict), &cv)
}

/// A spiral corridor of over 130 turns, so that a ray from its middle passes hundreds of
/// edges, all going one way on the way out and the other way back, with holes in it.
fn spiral_with_holes(r: &mut Rng) -> Poly {
    let k = 540 + 2 * r.us(100);
    let mid = spiral(k);
    let up = |q: &P, s: i64| p(s * q.x, s * q.y);
    let mut q = vec![spiral_ring(k).iter().map(|v| up(v, 4)).collect::<Vec<P>>()];
    for _ in 0..1 + r.us(4) {
        let c = up(&mid[if r.bool() { r.us(8) } else { r.us(mid.len()) }], 8);
        let d = r.range(1, 5);
        q.push(diamond(p(c.x + r.range(-1, 1), c.y), d));
    }
    q
}

fn many_holes(i: u64, r: &mut Rng) -> Poly {
    if i % 16 == 5 {
        return spiral_with_holes(r);
    }
    let (nx, ny) = grid_size(i, r);
    let mut q = vec![rect_ring(0, 0, 4 * nx, 4 * ny)];
    let style = r.below(3);
    for x in 0..nx {
        for y in 0..ny {
            let c = p(4 * x + 2, 4 * y + 2);
            q.push(match style {
                0 => diamond(c, 2), // touching each other and the exterior in points
                1 => rect_ring(c.x - 1, c.y - 1, c.x + 1, c.y + 1),
                _ => vec![p(c.x - 2, c.y - 2), p(c.x + 1, c.y - 1), p(c.x - 1, c.y + 1), p(c.x - 2, c.y - 2)],
            });
        }
    }
    let k = 1 + r.spot(q.len() - 1);
    match r.below(5) {
        0 | 1 => (),
        2 => {
            let (dx, dy) = (r.range(-2, 2), r.range(-2, 2));
            for v in q[k].iter_mut() {
                *v = p(v.x + dx, v.y + dy);
            }
        }
        3 => {
            // a tiny hole inside another one, or between them
            let v = q[k][0];
            let c = p(v.x + r.range(-2, 2), v.y + r.range(-2, 2));
            q.push(vec![c, p(c.x + 1, c.y), p(c.x, c.y + 1), c]);
        }
        _ => {
            let c = q[k].clone();
            q.push(c);
        }
    }
    let mut hs = q.split_off(1);
    put_in_order(r, &mut hs);
    q.extend(hs);
    q
}

/// How many of something side by side: a few, a square of them, or a long strip.
fn grid_size(i: u64, r: &mut Rng) -> (i64, i64) {
    let n = if i < 40 { 20 } else { 3 + r.range(0, 8) };
    if i % 4 != 3 {
        return (n, n);
    }
    let (l, w) = *r.pick(&[(1100, 1), (600, 1), (300, 1), (270, 2), (90, 3), (35, 30)]);
    if r.bool() {
        (l + r.range(0, 9), w)
    } else {
        (w, l + r.range(0, 9))
    }
}

/// At random, or as they lie, from some point on.
fn put_in_order<X>(r: &mut Rng, v: &mut [X]) {
    match r.below(4) {
        0 | 1 => r.shuffle(v),
        2 => {
            v.reverse();
        }
        _ => {
            let k = r.us(v.len() + 1);
            v.rotate_left(k);
        }
    }
}

fn poly_real<T: Num>(r: &mut Rng, ctx: &mut Ctx) -> R {
    let b = 1i64 << (T::REAL_BITS - 2);
    let n = 3 + r.us(8);
    let e = if r.bool() { two_opt(r, n, b, true) } else { star_ring(r, n, b) };
    let mut q = vec![e];
    for _ in 0..r.us(3) {
        let k = *r.pick(&[2, 4, 8, 16]);
        let c = pt(r, b - b / k);
        let n = 3 + r.us(4);
        let h = two_opt(r, n, b / k, true);
        q.push(h.iter().map(|v| p(c.x + v.x, c.y + v.y)).collect());
    }
    let bits = if T::BITS == 24 { 20 } else { 11 };
    let groups: Vec<Vec<(P, P)>> = q.iter().map(|m| segs_of(m)).collect();
    let mut clear = q.iter().all(|m| is_closed(m) && ls_clear(m, bits));
    cross_pairs(&groups, |g, i, h, j| {
        clear = clear && clear_pair(groups[g][i].0, groups[g][i].1, groups[h][j].0, groups[h][j].1, bits);
        clear
    });
    if !clear || q.iter().any(|m| ls_check(m) != LsV::Valid) {
        ctx.cat("real: not clear, skipped");
        return Ok(());
    }
    let mut ok = true;
    for h in 1..q.len() {
        ok = ok && ring_rel_mid(&q[0], &q[h]) == RingRel::Contains;
        for k in 1..h {
            ok = ok && ring_rel_mid(&q[k], &q[h]) == RingRel::Separate;
        }
    }
    let cv = Conv::plain(real_scale::<T>(r));
    ctx.eval();
    ctx.cat("real");
    ctx.cat(if ok { "real: valid" } else { "real: invalid" });
    if q.len() > 1 {
        ctx.nontrivial(hash_vv::<T>(14, &q, cv.s));
    }
    run_poly::<T>(&q, ok, "real coordinates", &cv)
}

// ------------------------------------------------------------------- C14

fn run_mpoly<T: Num>(v: &[Poly], want: bool, why: &str, cv: &Conv) -> R {
    let r = (|| {
        let m: MultiPolygon<T> = sut("MultiPolygon::new", || cv.mpoly(v))?;
        let got = sut("MultiPolygon::validate", || m.validate())?;
        let simple = sut("MultiPolygon::is_simple", || m.is_simple())?;
        judge("MultiPolygon", want, why, got, simple)
    })();
    with_input(r, || format!("{} {} {}", T::NAME, show3(v), cv.show()))
}

pub fn hash_mp<T>(tag: u64, v: &[Poly], s: i32) -> u64 {
    let mut h = H::new(tag);
    h.u(std::mem::size_of::<T>() as u64).i(s as i64).u(v.len() as u64);
    for q in v {
        h.u(q.len() as u64);
        for x in q {
            hash_pts(&mut h, x);
        }
    }
    h.0
}

fn c14(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    if i < 24 {
        return long_poly(i, r, ctx, true);
    }
    let ps = if i < 2_000 {
        ctx.cat("many members");
        many_members(i, r)
    } else {
        let b = bound(r, 24);
        any_mpoly(r, b)
    };
    let e = extent(ps.iter().flatten().flatten());
    if e > 1 << 24 {
        return Ok(());
    }
    let small = e <= 1 << 10 && r.chance(2, 5);
    dispatch!(small, mpoly(&ps, e, r, ctx))
}

pub fn many_members(i: u64, r: &mut Rng) -> Vec<Poly> {
    let (nx, ny) = grid_size(i, r);
    let mut ps: Vec<Poly> = vec![];
    match r.below(3) {
        0 => {
            // chessboard: members touch in corners
            for x in 0..nx {
                for y in 0..ny {
                    if (x + y) % 2 == 0 {
                        ps.push(vec![rect_ring(2 * x, 2 * y, 2 * x + 2, 2 * y + 2)]);
                    }
                }
            }
        }
        1 => {
            // one frame with many holes, an island in each
            let mut f = vec![rect_ring(-1, -1, 4 * nx + 1, 4 * ny + 1)];
            for x in 0..nx {
                for y in 0..ny {
                    let c = p(4 * x + 2, 4 * y + 2);
                    f.push(diamond(c, 2));
                    if r.chance(7, 8) {
                        let k = r.range(0, 1);
                        ps.push(vec![if k == 0 { diamond(c, 1) } else { rect_ring(c.x - 1, c.y - 1, c.x + 1, c.y + 1) }]);
                    }
                }
            }
            ps.push(f);
        }
        _ => {
            ps = grid_polys(r, nx as usize + 4, ny as usize + 4, 1, 2, true);
            for v in ps.iter_mut().flatten().flatten() {
                *v = p(2 * v.x, 2 * v.y);
            }
        }
    }
    match r.below(5) {
        0 | 1 => (),
        2 => {
            let k = r.spot(ps.len());
            let (dx, dy) = (r.range(-1, 1), r.range(-1, 1));
            for v in ps[k].iter_mut().flatten() {
                *v = p(v.x + dx, v.y + dy);
            }
        }
        3 => {
            let v = *r.pick(&ps[r.clone().us(ps.len())][0]);
            let c = p(v.x + r.range(-2, 2), v.y + r.range(-2, 2));
            ps.push(vec![vec![c, p(c.x + 1, c.y), p(c.x, c.y + 1), c]]);
        }
        _ => {
            let k = r.spot(ps.len());
            let c = ps[k].clone();
            ps.push(c);
        }
    }
    put_in_order(r, &mut ps);
    ps
}

fn mpoly<T: Num>(ps: &[Poly], e: i64, r: &mut Rng, ctx: &mut Ctx) -> R {
    let m = rand_map(r, e, T::BITS);
    let mut ps: Vec<Poly> = ps.iter().map(|q| m.all2(q)).collect();
    for ring in ps.iter_mut().flatten() {
        *ring = rand_rot(r, ring);
    }
    let (verdict, touches, nested) = mpoly_check(&ps);
    if m.very && !matches!(verdict, MpolyV::Valid | MpolyV::SharedEdge | MpolyV::Overlap) {
        return Ok(());
    }
    let cv = Conv::exact::<T>(r);
    ctx.eval();
    ctx.cat(match verdict {
        MpolyV::Valid => "Valid",
        MpolyV::Member(_) => "member invalid",
        MpolyV::Cross => "Cross",
        MpolyV::SharedEdge => "SharedEdge",
        MpolyV::Overlap => "Overlap",
    });
    if verdict == MpolyV::Valid {
        if touches > 0 {
            ctx.cat("valid, members touch");
        }
        if nested > 0 {
            ctx.cat("valid, nested");
        }
    }
    if ps.iter().any(|q| q.is_empty()) {
        ctx.cat("empty member");
    }
    if ps.iter().filter(|q| !q.is_empty()).count() > 1 {
        ctx.nontrivial(hash_mp::<T>(14, &ps, cv.s));
    }
    ctx.sample(|| format!("{} {} {} -> {:?}", T::NAME, show3(&ps), cv.show(), verdict));
    run_mpoly::<T>(&ps, verdict == MpolyV::Valid, &format!("{:?}", verdict), &cv)
}

// ------------------------------------------------------------------- C24

fn c24(_i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    let b = bound(r, 20);
    let ps = if r.bool() { vec![any_poly(r, b)] } else { any_mpoly(r, b) };
    let e = extent(ps.iter().flatten().flatten());
    if e > 1 << 24 {
        return Ok(());
    }
    let small = e <= 1 << 10 && r.chance(2, 5);
    dispatch!(small, surface(&ps, e, r, ctx))
}

/// Where the point lies with respect to the polygon: true if on the surface.
fn on_surface<T: Num>(q: &[Vec<P>], pt: &Position<T>, cv: &Conv) -> bool {
    if !pt.x.is_finite() || !pt.y.is_finite() {
        return false;
    }
    const K: i64 = 1 << 24;
    // relative to a vertex: exact where it matters
    let o = q[0][0];
    let f = |x: T, o: i64| (x.f64() / pow2(cv.s) - o as f64) * K as f64;
    let (x, y) = (f(pt.x, o.x), f(pt.y, o.y));
    if x.abs() > 1e18 || y.abs() > 1e18 {
        return false;
    }
    let w = p(x.round() as i64, y.round() as i64);
    let big: Vec<Vec<P>> = q.iter().map(|r| r.iter().map(|v| p((v.x - o.x) * K, (v.y - o.y) * K)).collect()).collect();
    let good = point_in_ring(&big[0], w) >= 0 && big[1..].iter().all(|h| point_in_ring(h, w) <= 0);
    if good {
        return true;
    }
    // within rounding error of the boundary is accepted too
    let ext = extent(q.iter().flatten()) as f64 * K as f64;
    big.iter().flat_map(|r| r.windows(2)).any(|s| {
        let (dx, dy) = ((s[1].x - s[0].x) as f64, (s[1].y - s[0].y) as f64);
        let t = (((w.x - s[0].x) as f64 * dx + (w.y - s[0].y) as f64 * dy) / (dx * dx + dy * dy)).clamp(0.0, 1.0);
        let (ex, ey) = (w.x as f64 - s[0].x as f64 - t * dx, w.y as f64 - s[0].y as f64 - t * dy);
        (ex * ex + ey * ey).sqrt() <= ext * T::eps() * 8.0 + 1.0
    })
}

fn surface<T: Num>(ps: &[Poly], e: i64, r: &mut Rng, ctx: &mut Ctx) -> R {
    let m = rand_map(r, e, T::BITS);
    let ps: Vec<Poly> = ps.iter().map(|q| m.all2(q)).collect();
    let cv = Conv::exact::<T>(r);
    let res = (|| {
        for q in &ps {
            let poly: Polygon<T> = cv.poly(q);
            let got = sut("Polygon::point_on_surface", || poly.point_on_surface())?;
            let empty = q.first().map_or(true, |e| e.is_empty());
            ctx.eval();
            match got {
                None if empty => ctx.cat("empty"),
                None => return viol("Polygon::point_on_surface() = None for a non-empty polygon"),
                Some(g) if empty => return viol(format!("Polygon::point_on_surface() = {:?} for an empty polygon", g)),
                Some(g) => {
                    if poly_check(q).0 == PolyV::Valid {
                        if q.len() > 1 {
                            ctx.cat("polygon with holes");
                            ctx.nontrivial(hash_vv::<T>(24, q, cv.s));
                        }
                        ctx.cat("valid polygon");
                        if !on_surface(q, &g.0, &cv) {
                            return viol(format!("Polygon::point_on_surface() = {:?} is not on the polygon", g));
                        }
                    }
                }
            }
        }
        let mp: MultiPolygon<T> = cv.mpoly(&ps);
        let got = sut("MultiPolygon::point_on_surface", || mp.point_on_surface())?;
        let first = ps.iter().find(|q| q.first().map_or(false, |e| !e.is_empty()));
        ctx.eval();
        match (got, first) {
            (None, None) => (),
            (Some(g), Some(q)) => {
                if ps.len() > 1 {
                    ctx.cat("multi-polygon");
                }
                if !std::ptr::eq(q, &ps[0]) {
                    ctx.cat("first member empty");
                }
                if poly_check(q).0 == PolyV::Valid {
                    ctx.nontrivial(hash_mp::<T>(25, &ps, cv.s));
                    if !on_surface(q, &g.0, &cv) {
                        return viol(format!("MultiPolygon::point_on_surface() = {:?} is not on the first non-empty member", g));
                    }
                }
            }
            (g, q) => return viol(format!("MultiPolygon::point_on_surface() = {:?}, first non-empty member {:?}", g, q.map(|q| show2(q)))),
        }
        Ok(())
    })();
    ctx.sample(|| format!("{} {}", T::NAME, show3(&ps)));
    with_input(res, || format!("{} {} {}", T::NAME, show3(&ps), cv.show()))
}
