//! C17 convex hull of a polygon against the exact hull.
use super::*;
use crate::gen::*;
use super::shapes::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C17",
        quick: 4_500_000,
        thorough: 450_000_000,
        floors: &[
            ("clockwise", 500_000),
            ("counter-clockwise", 500_000),
            ("starts on a straight edge", 200_000),
            ("starts inside the hull", 200_000),
            ("starts at a hull vertex", 800_000),
            ("straight stretch on the hull", 300_000),
            ("convex", 500_000),
            ("triangle", 100_000),
            ("pockets", 500_000),
            ("with holes", 300_000),
            ("100+ vertices", 2_000),
            ("rewritten", 2_000_000),
        ],
        rule: "A case is a valid ring (exact oracle) from simple-polygon generators, with vertices inserted on edges and any starting vertex and direction, as exterior of a polygon with or without holes, then rewritten (reversed, restarted, densified, holes dropped). Non-trivial: the ring has at least four vertices. Oracle: exact monotone-chain hull, compared as a cyclic counter-clockwise sequence.",
        case: c17,
    }]
}

fn c17(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    dispatch!(r.chance(1, 3), hull_case(i, r, ctx))
}

fn raw_ring(r: &mut Rng, b: i64, bits: u32, huge: bool) -> (Vec<P>, bool) {
    if huge {
        let n = 50_000 + r.us(100_000);
        return match r.below(2) {
            0 => (round_ring(r, n, (1 << bits) / 3), false),
            _ => (comb_ring(n / 4, 20), false),
        };
    }
    if r.chance(1, 60) {
        let n = 20 + r.size(0, if bits > 12 { 600 } else { 60 });
        return match r.below(6) {
            0 => (star_ring(r, n, b.max(60)), false),
            1 => (round_ring(r, n, (1 << bits) / 3), false),
            2 => (comb_ring(n / 4, 3 + r.range(0, 20)), false),
            3 => (spiral_ring((n / 8).min(60)), false),
            4 => {
                let s = 4 + r.us(14);
                (grid_ring(r, s), false)
            }
            _ => long_chain(r, n),
        };
    }
    if r.chance(1, 12) {
        // staircase or zig-zag with a straight closing edge: pockets along one side
        let n = 3 + r.more(12, 400);
        let mut v = monotone(r, n, 3, 4);
        let y = -6;
        let (a, z) = (v[0], v[n - 1]);
        v.push(p(z.x, y));
        v.push(p(a.x, y));
        return (close(v), false);
    }
    if r.chance(1, 12) {
        let outer = any_ring(r, b.max(4));
        return (inscribed(r, &outer), false);
    }
    (any_ring(r, b), false)
}

fn hull_case<T: Num>(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    let b = bound(r, T::BITS);
    let (mut ring, known) = raw_ring(r, b, T::BITS, i < 4);
    if r.chance(1, 3) {
        ring = densify(r, &ring, 1, 3);
    }
    let ext = extent(ring.iter());
    if ext > 1 << T::BITS || !is_closed(&ring) {
        ctx.cat("skipped: not a usable ring");
        return Ok(());
    }
    ring = rand_map(r, ext, T::BITS).all(&ring);
    if r.bool() {
        ring.reverse();
    }
    ring = rand_rot(r, &ring);
    let _ = known;
    if !is_ring(&ring) {
        ctx.cat("skipped: not a valid ring");
        return Ok(());
    }
    ctx.eval();
    let want = hull(&ring);
    let cv = Conv::exact::<T>(r);
    if ring.len() > 4 {
        ctx.nontrivial(hash_ls::<T>(17, &ring, cv.s));
    }
    ctx.sample(|| format!("{} ring {} {}, hull {}", T::NAME, show(&ring), cv.show(), show(&want)));
    // what the case looks like
    let n = ring.len() - 1;
    ctx.cat(if area2(&ring) > 0 { "counter-clockwise" } else { "clockwise" });
    let at = |k: usize| ring[k % n];
    if (0..3).any(|k| cross(at(n + k - 1), at(k), at(k + 1)) == 0) {
        ctx.cat("starts on a straight edge");
    }
    ctx.cat(if want.contains(&ring[0]) { "starts at a hull vertex" } else { "starts inside the hull" });
    let on_hull = |q: P| (0..want.len()).any(|k| on_seg(want[k], want[(k + 1) % want.len()], q));
    let on = ring[..n].iter().take(1000).filter(|q| on_hull(**q)).count();
    if ring.len() > 20_000 {
        ctx.cat("20000+ vertices");
    }
    if on > want.len() {
        ctx.cat("straight stretch on the hull");
    }
    if on < n.min(1000) {
        ctx.cat("pockets");
    } else {
        ctx.cat("convex");
    }
    if want.len() == 3 {
        ctx.cat("triangle");
    }
    if n >= 100 {
        ctx.cat("100+ vertices");
    }
    // holes are irrelevant, whatever they are
    let mut rings = vec![ring.clone()];
    if r.chance(1, 3) {
        for _ in 0..1 + r.us(2) {
            let h = any_ring(r, b.min(20));
            let e = extent(h.iter());
            if e <= 1 << T::BITS {
                rings.push(h);
            }
        }
        if r.chance(1, 10) {
            rings.push(vec![]);
        }
        ctx.cat("with holes");
    }
    check::<T>(&rings, &cv, &want)?;
    for _ in 0..2 {
        ctx.cat("rewritten");
        let mut x = ring.clone();
        if r.bool() {
            x.reverse();
        }
        if r.bool() {
            x = rand_rot(r, &x);
        }
        if r.chance(1, 3) {
            x = densify(r, &x, 1, 4);
        }
        check::<T>(&[x], &cv, &want)?;
    }
    Ok(())
}

fn check<T: Num>(rings: &[Vec<P>], cv: &Conv, want: &[P]) -> R {
    let poly: Polygon<T> = cv.poly(rings);
    let res = (|| {
        let h = sut("Polygon::convex_hull", || poly.convex_hull())?;
        let got: Vec<(f64, f64)> = h.positions.iter().map(|q| (q.x.f64(), q.y.f64())).collect();
        let exp: Vec<(f64, f64)> = want.iter().map(|q| (cv.c::<T>(q.x).f64(), cv.c::<T>(q.y).f64())).collect();
        let m = exp.len();
        let ok = got.len() == m + 1
            && got[0] == got[m]
            && exp.iter().position(|e| *e == got[0]).map_or(false, |k| (0..m).all(|i| got[i] == exp[(k + i) % m]));
        if !ok {
            return viol(format!("convex_hull() = {:?}, exact hull (counter-clockwise): {:?}", got, exp));
        }
        Ok(())
    })();
    with_input(res, || format!("{} {} {}", T::NAME, show2(rings), cv.show()))
}
