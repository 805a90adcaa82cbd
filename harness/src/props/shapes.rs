//! Integer scenarios for lines, multi-lines, polygons and multi-polygons.
use crate::gen::*;
use crate::geo::*;
use crate::rng::Rng;

/// A coordinate bound: mostly tiny lattices (dense in coincidences), some large.
pub fn bound(r: &mut Rng, bits: u32) -> i64 {
    let big = 1i64 << bits;
    (match r.below(10) {
        0 => 1,
        1 | 2 => 2,
        3 => 3,
        4 => 5,
        5 => 10,
        6 => 40,
        7 => 300,
        8 => big / 8,
        _ => big / 3,
    })
    .clamp(1, big / 3)
}

/// A Hilbert-curve path through all 4^k points.
pub fn hilbert_path(k: u32) -> Vec<P> {
    let n = 1i64 << k;
    (0..n * n)
        .map(|d| {
            let (mut x, mut y, mut t) = (0i64, 0i64, d);
            let mut s = 1;
            while s < n {
                let rx = 1 & (t / 2);
                let ry = 1 & (t ^ rx);
                if ry == 0 {
                    if rx == 1 {
                        x = s - 1 - x;
                        y = s - 1 - y;
                    }
                    std::mem::swap(&mut x, &mut y);
                }
                x += s * rx;
                y += s * ry;
                t /= 4;
                s *= 2;
            }
            p(x, y)
        })
        .collect()
}

/// Long chains whose verdict follows from the construction: (chain, valid).
/// Two rings of over 65536 vertices each, the second inside the first: a zig-zag below, a
/// straight edge above. The first spans y from -12 to 60 and the second 24 to 50, in
/// between it is free, as is the second's inside from 37 on.
pub fn long_rings(r: &mut Rng) -> (Vec<P>, Vec<P>) {
    let n = 66_000 + r.range(0, 60_000);
    let mut e: Vec<P> = (0..n).map(|i| p(2 * i, 2 * r.range(-6, 6))).collect();
    e.extend([p(2 * n, 60), p(-2, 60), e[0]]);
    let mut h: Vec<P> = (1..n - 1).map(|i| p(2 * i, 30 + 2 * r.range(-3, 3))).collect();
    h.extend([p(2 * n - 3, 50), p(1, 50), h[0]]);
    (e, h)
}

pub fn long_chain(r: &mut Rng, n: usize) -> (Vec<P>, bool) {
    let amp = 6;
    let mut v: Vec<P> = (0..n as i64).map(|i| p(2 * i, 2 * r.range(-amp, amp))).collect();
    let last = v[n - 1];
    let top = 2 * amp + 6;
    match r.below(6) {
        0 => (v, true),
        1 => {
            // close it over the top
            v.push(p(last.x + 2, top));
            v.push(p(v[0].x - 2, top));
            let f = v[0];
            v.push(f);
            (v, true)
        }
        k => {
            v.push(p(last.x + 2, top));
            let i = r.spot(n - 1);
            let (a, b) = (v[i], v[i + 1]);
            if k < 4 {
                // drop onto vertex i: just above, exactly there, below
                v.push(p(a.x, top));
                let d = r.range(-1, 1);
                v.push(p(a.x, a.y + d));
                // exactly onto the first vertex the chain is closed
                (v, d > 0 || d == 0 && i == 0)
            } else {
                // drop onto the middle of edge i; a.y and b.y are even
                let m = p((a.x + b.x) / 2, (a.y + b.y) / 2);
                v.push(p(m.x, top));
                let d = r.range(-1, 1);
                v.push(p(m.x, m.y + d));
                (v, d > 0)
            }
        }
    }
}

/// Multi-line-string scenarios. Members lie within about max(b,1000).
pub fn any_mls(r: &mut Rng, b: i64) -> Vec<Vec<P>> {
    let valid_chain = |r: &mut Rng, b: i64| -> Vec<P> {
        for _ in 0..6 {
            let v = any_chain(r, b);
            if ls_check(&v) == LsV::Valid {
                return v;
            }
        }
        vec![pt(r, b), pt(r, b)]
    };
    let mut ms: Vec<Vec<P>> = match r.below(9) {
        0 | 1 => {
            // members grown one by one, kept apart most of the time
            let k = 1 + r.more(6, 24);
            let mut ms: Vec<Vec<P>> = vec![];
            for _ in 0..k {
                for t in 0..5 {
                    let c = valid_chain(r, b);
                    ms.push(c);
                    if t == 4 || mls_check(&ms) == MlsV::Valid {
                        break;
                    }
                    ms.pop();
                }
            }
            ms
        }
        2 | 3 => network(r),
        4 => {
            // strips on one horizontal, vertical or slanted line
            let k = 1 + r.more(9, 600);
            let mut x = 0;
            let mut ms = vec![];
            for _ in 0..k {
                let a = x + *r.pick(&[0, 0, 1, 2]);
                let l = r.range(1, 3);
                let mut m = vec![p(a, 0), p(a + l, 0)];
                if l > 1 && r.bool() {
                    m.insert(1, p(a + 1, 0));
                }
                if r.bool() {
                    m.reverse();
                }
                x = a + l - if r.chance(1, 12) { 1 } else { 0 };
                ms.push(m);
            }
            if r.chance(1, 3) {
                // one more meeting the line from the side
                let q = p(r.range(0, x), 0);
                ms.push(vec![q, p(q.x + r.range(-2, 2), r.range(1, 3))]);
            }
            let (c, d) = *r.pick(&[(1, 0), (0, 1), (1, 1), (2, 1), (-3, 2), (1, -1)]);
            ms.iter().map(|m| m.iter().map(|q| p(c * q.x - d * q.y, d * q.x + c * q.y)).collect()).collect()
        }
        5 => {
            // rings of grid regions
            let s = 2 + r.more(4, 20);
            let u = r.bool();
            let ps = grid_polys(r, s, s, 1, 2, u);
            let mut ms: Vec<Vec<P>> = ps.into_iter().flatten().collect();
            ms.truncate(12 * r.big);
            ms
        }
        6 => {
            // a star of members meeting in one point, possibly one of them passing through
            let c = pt(r, 2);
            let k = 2 + r.more(7, 60);
            let d = 3 * r.big as i64;
            let mut ms = vec![];
            for _ in 0..k {
                let mut m = vec![c];
                let mut q = c;
                for _ in 0..1 + r.us(2) {
                    q = p(q.x + r.range(-d, d), q.y + r.range(-d, d));
                    m.push(q);
                }
                if ls_check(&m) != LsV::Valid {
                    continue;
                }
                ms.push(m);
                if r.chance(4, 5) && mls_check(&ms) != MlsV::Valid {
                    ms.pop();
                }
            }
            ms
        }
        7 => {
            // nested boxes: concentric rings or zigzags
            let k = 1 + r.more(8, 150) as i64;
            let mut ms: Vec<Vec<P>> = (1..=k).map(|i| rect_ring(-2 * i, -2 * i, 2 * i, 2 * i)).collect();
            for m in ms.iter_mut() {
                if r.chance(1, 3) {
                    m.pop();
                }
            }
            if r.bool() {
                let t = 2 * k + 1;
                let (a, bb) = (r.range(-t, t), r.range(-t, t));
                let (c, d) = (a + r.range(-3, 3), bb + r.range(-3, 3));
                if (a, bb) != (c, d) {
                    ms.push(vec![p(a, bb), p(c, d)]);
                }
            }
            ms
        }
        _ => {
            let k = 1 + r.more(4, 60);
            (0..k).map(|_| if r.chance(1, 6) { any_chain(r, b) } else { valid_chain(r, b) }).collect()
        }
    };
    if r.chance(1, 4) {
        for _ in 0..1 + r.us(2) {
            let i = r.us(ms.len() + 1);
            ms.insert(i, vec![]);
        }
    }
    if r.chance(1, 6) && !ms.is_empty() {
        // merge two members that share an end: their joint becomes interior
        let i = r.us(ms.len());
        let j = r.us(ms.len());
        if i != j && !ms[i].is_empty() && !ms[j].is_empty() && ms[i].last() == ms[j].first() && !is_closed(&ms[i]) && !is_closed(&ms[j]) {
            let t = ms[j][1..].to_vec();
            ms[i].extend(t);
            ms.remove(j);
        }
    }
    if r.chance(1, 8) {
        let k = ms.len();
        if k > 0 {
            let i = r.us(k);
            if ms[i].len() > 1 {
                mutate_chain(r, &mut ms[i], b);
            }
        }
    }
    r.shuffle(&mut ms);
    ms
}

/// A planar street network: unit lattice edges chained into paths that are cut at
/// the crossings (valid), sometimes not cut (invalid).
pub fn network(r: &mut Rng) -> Vec<Vec<P>> {
    let (w, h) = (2 + r.more(5, 20) as i64, 2 + r.more(5, 20) as i64);
    let mut edges: Vec<(P, P)> = vec![];
    for x in 0..w {
        for y in 0..h {
            if x + 1 < w && r.chance(1, 2) {
                edges.push((p(x, y), p(x + 1, y)));
            }
            if y + 1 < h && r.chance(1, 2) {
                edges.push((p(x, y), p(x, y + 1)));
            }
            if x + 1 < w && y + 1 < h && r.chance(1, 3) {
                edges.push(if r.bool() { (p(x, y), p(x + 1, y + 1)) } else { (p(x + 1, y), p(x, y + 1)) });
            }
        }
    }
    r.shuffle(&mut edges);
    use std::collections::BTreeMap;
    let mut deg: BTreeMap<P, usize> = BTreeMap::new();
    for e in &edges {
        *deg.entry(e.0).or_insert(0) += 1;
        *deg.entry(e.1).or_insert(0) += 1;
    }
    let sloppy = r.chance(1, 4);
    let mut paths: Vec<Vec<P>> = vec![];
    let mut used = vec![false; edges.len()];
    for s in 0..edges.len() {
        if used[s] {
            continue;
        }
        used[s] = true;
        let mut path = vec![edges[s].0, edges[s].1];
        for _ in 0..2 {
            loop {
                let e = path[path.len() - 1];
                if deg[&e] != 2 && !(sloppy && r.chance(1, 3)) {
                    break;
                }
                if path[0] == e || r.chance(1, 5) {
                    break;
                }
                let k = (0..edges.len()).find(|&k| !used[k] && (edges[k].0 == e || edges[k].1 == e));
                match k {
                    None => break,
                    Some(k) => {
                        used[k] = true;
                        path.push(if edges[k].0 == e { edges[k].1 } else { edges[k].0 });
                    }
                }
            }
            path.reverse();
        }
        paths.push(path);
    }
    paths
}

/// A grid of streets cut at all crossings: (w-1)*h + w*(h-1) members, valid.
pub fn street_grid(w: i64, h: i64) -> Vec<Vec<P>> {
    let mut ms = vec![];
    for x in 0..w {
        for y in 0..h {
            if x + 1 < w {
                ms.push(vec![p(2 * x, 2 * y), p(2 * x + 2, 2 * y)]);
            }
            if y + 1 < h {
                ms.push(vec![p(2 * x, 2 * y), p(2 * x, 2 * y + 2)]);
            }
        }
    }
    ms
}

/// Polygon scenarios (exterior first).
pub fn any_poly(r: &mut Rng, b: i64) -> Poly {
    let mut q: Poly = match r.below(13) {
        12 => {
            // rings touching in many places
            let (mut e, mut h) = touching_stars(r);
            for _ in 0..10 {
                if is_ring(&e) && is_ring(&h) && (r.chance(1, 6) || !contact(&[&e], &[&h]).cross) {
                    break;
                }
                (e, h) = touching_stars(r);
            }
            if r.chance(1, 4) {
                std::mem::swap(&mut e, &mut h);
            }
            vec![e, h]
        }
        0 | 1 => {
            // random simple rings on a lattice, the hole chosen among many tries
            let e = any_ring(r, b);
            let mut q = vec![e];
            let want = r.below(3);
            for _ in 0..1 + r.more(3, 12) {
                let mut cand = vec![];
                for _ in 0..25 {
                    let n = 3 + r.us(4);
                    let h = if r.bool() { two_opt(r, n, b, true) } else { inscribed(r, &q[0].clone()) };
                    if !is_ring(&h) {
                        continue;
                    }
                    cand = h;
                    if want == 0 {
                        break;
                    }
                    let c = contact(&[&q[0]], &[&cand]);
                    if c.cross || c.overlap {
                        continue;
                    }
                    if want == 1 || c.touches > 0 {
                        break;
                    }
                }
                if !cand.is_empty() {
                    q.push(cand);
                }
            }
            q
        }
        2 | 3 | 4 => {
            // a grid region with its holes
            let s = 3 + r.more(5, 20);
            let u = r.bool();
            let num = 2 + r.below(2);
            let ps = grid_polys(r, s, s, num, 4, u);
            match ps.into_iter().max_by_key(|q| q.len() * 100 + q[0].len()) {
                Some(q) => q,
                None => vec![rect_ring(0, 0, 1, 1)],
            }
        }
        5 => {
            // sub-rectangles and diamonds in a grid region's cells
            let s = 3 + r.more(3, 14);
            let u = r.bool();
            let cells: Vec<Vec<bool>> = (0..s).map(|_| (0..s).map(|_| r.chance(3, 4)).collect()).collect();
            let ps = cells_to_polys(&cells, u);
            let mut q = ps.into_iter().max_by_key(|q| q[0].len()).map(|q| vec![q[0].clone()]).unwrap_or(vec![rect_ring(0, 0, 1, 1)]);
            for v in q[0].iter_mut() {
                *v = p(2 * v.x, 2 * v.y);
            }
            for y in 0..s {
                for x in 0..s {
                    if r.chance(1, 4) {
                        let (cx, cy) = (2 * x as i64 + 1, 2 * y as i64 + 1);
                        q.push(if r.chance(3, 4) { diamond(p(cx, cy), 1) } else { rect_ring(cx - 1, cy - 1, cx + 1, cy + 1) });
                    }
                }
            }
            q
        }
        6 => {
            // rectangle with small rings scattered in it
            let w = 3 + r.range(0, 8 * r.big as i64);
            let mut q = vec![rect_ring(0, 0, w, w)];
            for _ in 0..1 + r.more(6, 60) {
                let c = p(r.range(1, w - 1), r.range(1, w - 1));
                let h = match r.below(4) {
                    0 => diamond(c, 1),
                    1 => rect_ring(c.x, c.y, c.x + r.range(1, 2), c.y + r.range(1, 2)),
                    2 => vec![c, p(c.x + 1, c.y), p(c.x, c.y + 1), c],
                    _ => two_opt(r, 4, 1, true).iter().map(|v| p(c.x + v.x, c.y + v.y)).collect(),
                };
                q.push(h);
                if r.chance(4, 5) && poly_check(&q).0 != PolyV::Valid {
                    q.pop();
                }
            }
            q
        }
        7 => {
            // homothetic hole: scaled about a vertex or a point inside
            let e = any_ring(r, (b / 4).max(1));
            let k = r.range(2, 4);
            let i = r.us(e.len() - 1);
            let c = if r.bool() { e[i] } else { e[i..i + 2].iter().fold(p(0, 0), |a, v| p(a.x + v.x, a.y + v.y)) };
            let big: Vec<P> = e.iter().map(|v| p(k * v.x, k * v.y)).collect();
            let small: Vec<P> = e.iter().map(|v| p(v.x + (k - 1) * c.x, v.y + (k - 1) * c.y)).collect();
            if extent(big.iter().chain(&small)) <= b.max(1000) {
                vec![big, small]
            } else {
                vec![e]
            }
        }
        8 => {
            // inscribed ring, and a ring across a notch
            let e = any_ring(r, (b / 2).max(1));
            let e: Vec<P> = e.iter().map(|v| p(2 * v.x, 2 * v.y)).collect();
            let h = inscribed(r, &e);
            if is_ring(&h) && extent(e.iter()) <= b.max(1000) {
                vec![e, h]
            } else {
                vec![e]
            }
        }
        9 => {
            // a convex ring with a fan of holes meeting in one vertex
            let w = 6 + r.range(0, 6 * r.big as i64);
            let e = rect_ring(-w, -w, w, w);
            let c = if r.bool() { p(0, 0) } else { p(-w, 0) };
            let mut q = vec![e];
            let k = 1 + r.more(4, 24);
            for _ in 0..k {
                for _ in 0..6 {
                    let h = vec![c, p(r.range(-w, w), r.range(-w, w)), p(r.range(-w, w), r.range(-w, w)), c];
                    if !is_ring(&h) {
                        continue;
                    }
                    q.push(h);
                    if poly_check(&q).0 == PolyV::Valid || r.chance(1, 12) {
                        break;
                    }
                    q.pop();
                }
            }
            q
        }
        10 => {
            // combs and spirals with holes in their arms or notches
            let k = 1 + r.more(4, 25);
            let e: Vec<P> = if r.bool() { comb_ring(k, 8) } else { spiral_ring(2 * k + 1) };
            let e: Vec<P> = e.iter().map(|v| p(2 * v.x, 2 * v.y)).collect();
            let (lo, hi) = bbox(&e).unwrap();
            let mut q = vec![e];
            for _ in 0..1 + r.more(4, 40) {
                let c = p(r.range(lo.x, hi.x), r.range(lo.y, hi.y));
                let h = if r.bool() { diamond(c, 1) } else { rect_ring(c.x, c.y, c.x + 1, c.y + r.range(1, 3)) };
                q.push(h);
                if r.chance(2, 3) && poly_check(&q).0 != PolyV::Valid {
                    q.pop();
                }
            }
            q
        }
        _ => {
            // arbitrary chains
            let k = 1 + r.us(3);
            (0..k).map(|_| if r.bool() { any_ring(r, b) } else { any_chain(r, b) }).collect()
        }
    };
    for _ in 0..*r.pick(&[0, 0, 0, 0, 0, 1, 2]) {
        mutate_poly(r, &mut q, b);
    }
    q
}

pub fn mutate_poly(r: &mut Rng, q: &mut Poly, b: i64) {
    if q.is_empty() {
        return;
    }
    let i = r.us(q.len());
    match r.below(8) {
        0 => {
            if q[i].len() > 2 {
                mutate_chain(r, &mut q[i], b)
            }
        }
        1 => {
            let (dx, dy) = (r.range(-1, 1), r.range(-1, 1));
            for v in q[i].iter_mut() {
                *v = p(v.x + dx, v.y + dy);
            }
        }
        2 => {
            let j = r.us(q.len());
            q.swap(i, j);
        }
        3 => {
            let h = q[i].clone();
            q.push(h);
        }
        4 => q.push(vec![]),
        5 => q[i] = densify(r, &q[i].clone(), 1, 1),
        6 => {
            if q.len() > 1 {
                q.remove(i);
            }
        }
        _ => {
            // move one vertex of a ring onto another ring, keeping it closed
            let j = r.us(q.len());
            if q[i].len() >= 4 && q[j].len() >= 2 {
                let k = r.us(q[j].len() - 1);
                let t = on_edge(r, q[j][k], q[j][k + 1]);
                let n = q[i].len() - 1;
                let a = r.us(n);
                q[i][a] = t;
                if a == 0 {
                    q[i][n] = t;
                }
            }
        }
    }
}

/// Multi-polygon scenarios.
pub fn any_mpoly(r: &mut Rng, b: i64) -> Vec<Poly> {
    let mut ps: Vec<Poly> = match r.below(9) {
        8 => {
            // rings touching in many places, as members and holes
            let (e, h) = touching_stars(r);
            let (_, g) = touching_stars(r);
            match r.below(5) {
                0 => vec![vec![e], vec![h]],
                1 => vec![vec![h], vec![e]],
                2 => {
                    // an island in a hole of the same shape
                    let (lo, hi) = bbox(&e).unwrap();
                    let frame = rect_ring(lo.x - r.range(0, 2), lo.y - 1, hi.x + r.range(0, 2), hi.y + 1);
                    if r.bool() { vec![vec![frame, e], vec![h]] } else { vec![vec![h], vec![frame, e]] }
                }
                3 => {
                    let x = bbox(&e).unwrap().1.x - bbox(&g).map_or(0, |q| q.0.x);
                    vec![vec![e, h], vec![g.iter().map(|v| p(v.x + x, v.y)).collect()]]
                }
                _ => vec![vec![e.clone(), h.clone()], vec![h]],
            }
        }
        0 | 1 | 2 => {
            let (w, h) = (2 + r.more(6, 24), 2 + r.more(6, 24));
            let u = r.bool();
            let num = r.range(2, 6) as u64;
            grid_polys(r, w, h, num, 8, u)
        }
        3 => {
            // nested frames: islands in holes in islands ...
            let k = 1 + r.more(4, 16) as i64;
            let gap = r.range(0, 1);
            let mut ps = vec![];
            for i in 0..k {
                let o = 2 * i * (1 + gap) + i * 0 + 2 * i;
                let o2 = o + 2;
                let w = 4 * k * 3 + 8;
                let mut q = vec![rect_ring(o, o, w - o, w - o)];
                if r.chance(7, 8) {
                    q.push(rect_ring(o2, o2, w - o2, w - o2));
                }
                ps.push(q);
            }
            if r.bool() {
                let w = 4 * k * 3 + 8;
                let t = w / 2;
                ps.push(vec![diamond(p(t, t), r.range(1, t))]);
            }
            ps
        }
        4 => {
            // polygons grown one by one
            let k = 1 + r.more(4, 12);
            let mut ps: Vec<Poly> = vec![];
            for _ in 0..k {
                for t in 0..5 {
                    let q = any_poly(r, b);
                    ps.push(q);
                    if t == 4 || mpoly_check(&ps).0 == MpolyV::Valid {
                        break;
                    }
                    ps.pop();
                }
            }
            ps
        }
        5 => {
            // a polygon with holes, and its holes filled by islands of the same or a touching shape
            let mut q = any_poly(r, b);
            if q.is_empty() {
                q.push(rect_ring(0, 0, 2, 2));
            }
            for ring in q.iter_mut() {
                for v in ring.iter_mut() {
                    *v = p(2 * v.x, 2 * v.y);
                }
            }
            if extent(q.iter().flatten()) > b.max(1000) {
                return vec![];
            }
            let mut ps = vec![q.clone()];
            for h in &q[1..] {
                if h.len() < 4 {
                    continue;
                }
                match r.below(4) {
                    0 => ps.push(vec![h.clone()]),
                    1 | 2 => {
                        let g = inscribed(r, h);
                        if is_ring(&g) {
                            ps.push(vec![g]);
                        }
                    }
                    _ => (),
                }
            }
            if r.chance(1, 3) {
                let g = inscribed(r, &q[0]);
                if is_ring(&g) {
                    ps.push(vec![g]);
                }
            }
            ps
        }
        6 => {
            // small rings around a common vertex or along a line
            let k = 2 + r.more(6, 40);
            let d = 3 * r.big as i64;
            let mut ps: Vec<Poly> = vec![];
            for _ in 0..k {
                let c = pt(r, d);
                let g = match r.below(4) {
                    0 => diamond(c, r.range(1, 2)),
                    1 => rect_ring(c.x, c.y, c.x + r.range(1, 3), c.y + r.range(1, 3)),
                    _ => {
                        let n = 3 + r.us(3);
                        two_opt(r, n, 3, true)
                    }
                };
                ps.push(vec![g]);
                if r.chance(5, 6) && mpoly_check(&ps).0 != MpolyV::Valid {
                    ps.pop();
                }
            }
            ps
        }
        _ => {
            let k = 1 + r.us(3);
            (0..k).map(|_| any_poly(r, b)).collect()
        }
    };
    if r.chance(1, 5) {
        let i = r.us(ps.len() + 1);
        ps.insert(i, vec![]);
    }
    if r.chance(1, 5) && !ps.is_empty() {
        let i = r.us(ps.len());
        match r.below(3) {
            0 => mutate_poly(r, &mut ps[i], b),
            1 => {
                let c = ps[i].clone();
                ps.push(c);
            }
            _ => {
                let (dx, dy) = (r.range(-1, 1), r.range(-1, 1));
                for v in ps[i].iter_mut().flatten() {
                    *v = p(v.x + dx, v.y + dy);
                }
            }
        }
    }
    r.shuffle(&mut ps);
    ps
}
