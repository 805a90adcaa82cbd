//! C10 line string validity, C12 multi-line-string validity.
use super::shapes::*;
use super::*;
use crate::gen::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            quick: 6_500_000,
            thorough: 650_000_000,
            floors: &[
                ("valid", 700_000),
                ("valid ring", 100_000),
                ("Cross", 100_000),
                ("Touch", 200_000),
                ("Fold", 40_000),
                ("Overlap", 5_000),
                ("Repeated", 100_000),
                ("real: valid", 100_000),
                ("real: invalid", 20_000),
                ("long chain", 20),
                ("near miss", 100_000),
            ],
            rule: "A case is a chain of positions (walks, rings, tadpoles, spirals, space-filling curves, monotone chains up to 60000 positions, perturbed ones), mapped by a random integer affine map and scale 2^s to f32 or f64; non-trivial when it has at least 3 segments, counted by a hash of coordinates, scale and type. The oracle is the pairwise exact integer relation of all segments (for chains built longer than 20000 the verdict follows from the construction).",
            case: c10,
        },
        Prop {
            id: "C12",
            quick: 1_500_000,
            thorough: 150_000_000,
            floors: &[
                ("valid", 100_000),
                ("valid touching", 100_000),
                ("Interior", 50_000),
                ("ClosedEnd", 9_000),
                ("Cross", 20_000),
                ("Overlap", 9_000),
                ("member invalid", 20_000),
                ("many members", 3_000), ("over 65536 positions", 20),
                ("flat", 6_000),
                ("real: valid", 20_000),
                ("real: invalid", 10_000),
            ],
            rule: "A case is a list of members (street networks cut at crossings, collinear strips, stars, nested frames, grid region boundaries, random chains, up to 2000 members); non-trivial when it has at least two non-empty members. Oracle: exact pairwise relation of all segments of different members, judged by definition.",
            case: c12,
        },
    ]
}

fn c10(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    if i < 36 {
        let n = if i < 24 { 66_000 + r.us(60_000) } else { 21_000 + r.us(20_000) };
        let f32_ = false;
        return dispatch!(f32_, long(i, n, r, ctx));
    }
    if i < 400 {
        return dispatch!(false, curve(r, ctx));
    }
    if i % 5 == 4 {
        return real_dispatch(r, ctx);
    }
    let b = bound(r, 24);
    let v = any_chain(r, b);
    let e = extent(v.iter());
    let small = e <= 1 << 10 && r.chance(2, 5);
    dispatch!(small, chain(&v, e, r, ctx))
}

fn run_ls<T: Num>(v: &[P], want: bool, why: &str, cv: &Conv) -> R {
    let r = (|| {
        let ls: LineString<T> = sut("LineString::new", || cv.ls(v))?;
        let got = sut("LineString::validate", || ls.validate())?;
        let simple = sut("LineString::is_simple", || ls.is_simple())?;
        judge("LineString", want, why, got, simple)
    })();
    with_input(r, || format!("{} {} {}", T::NAME, show(v), cv.show()))
}

fn chain<T: Num>(v: &[P], e: i64, r: &mut Rng, ctx: &mut Ctx) -> R {
    let m = rand_map(r, e, T::BITS);
    let v = m.all(v);
    let verdict = ls_check(&v);
    if m.very && verdict == LsV::Cross {
        return Ok(());
    }
    let cv = Conv::exact::<T>(r);
    ctx.eval();
    ctx.cat(match verdict {
        LsV::Valid => "valid",
        LsV::OnePoint => "OnePoint",
        LsV::Repeated => "Repeated",
        LsV::Fold => "Fold",
        LsV::Cross => "Cross",
        LsV::Touch => "Touch",
        LsV::Overlap => "Overlap",
    });
    if verdict == LsV::Valid && is_closed(&v) {
        ctx.cat("valid ring");
    }
    if v.len() < 60 && verdict == LsV::Valid && !ls_clear(&v, 12) {
        ctx.cat("near miss");
    }
    if v.len() > 3 {
        ctx.nontrivial(hash_ls::<T>(10, &v, cv.s));
    }
    ctx.sample(|| format!("{} {} {} -> {:?}", T::NAME, show(&v), cv.show(), verdict));
    run_ls::<T>(&v, verdict == LsV::Valid, &format!("{:?}", verdict), &cv)
}

fn long<T: Num>(i: u64, n: usize, r: &mut Rng, ctx: &mut Ctx) -> R {
    let (mut v, want) = match i % 4 {
        3 => (boustrophedon((n / 2).min(20_000), 1000, 2), true),
        2 => {
            let (e, h) = long_rings(r);
            (if r.bool() { e } else { h }, true)
        }
        _ => long_chain(r, n),
    };
    if v.len() > 65536 {
        ctx.cat("over 65536 vertices");
        if v[0] == v[v.len() - 1] && want {
            ctx.cat("valid ring of over 65536 vertices");
        }
    }
    if r.bool() {
        v.reverse();
    }
    let m = rand_map(r, extent(v.iter()), T::BITS);
    if m.very && !want {
        return Ok(());
    }
    let v = m.all(&v);
    let cv = Conv::rand::<T>(r);
    ctx.eval();
    ctx.cat("long chain");
    ctx.nontrivial(hash_ls::<T>(10, &v, cv.s));
    run_ls::<T>(&v, want, "by construction", &cv)
}

/// Space-filling curves and long rings, possibly disturbed at one place.
fn curve<T: Num>(r: &mut Rng, ctx: &mut Ctx) -> R {
    let mut v: Vec<P> = match r.below(4) {
        0 => hilbert_path(4 + r.below(2) as u32),
        1 => {
            let n = 200 + r.us(600);
            star_ring(r, n, 100_000)
        }
        2 => spiral_ring(60 + 2 * r.us(60)),
        _ => {
            let n = 500 + r.us(1500);
            let mut v = monotone(r, n, 5, 30);
            let f = v[0];
            let l = v[n - 1];
            v.push(p(l.x + 1, 60));
            v.push(p(f.x - 1, 60));
            v.push(f);
            v
        }
    };
    for q in v.iter_mut() {
        *q = p(2 * q.x, 2 * q.y);
    }
    match r.below(6) {
        0 | 1 => (),
        2 => {
            let n = v.len();
            let i = r.spot(n - 1);
            let j = r.spot(n);
            v[j] = on_edge(r, v[i], v[i + 1]);
        }
        3 => {
            let i = 1 + r.spot(v.len() - 2);
            v[i] = p(v[i].x + r.range(-2, 2), v[i].y + r.range(-2, 2));
        }
        4 => {
            let i = r.us(v.len());
            let q = v[i];
            v.push(q);
        }
        _ => {
            let i = r.us(v.len() - 2);
            v.swap(i, i + 1);
        }
    }
    let e = extent(v.iter());
    ctx.cat("curve");
    chain::<T>(&v, e, r, ctx)
}

/// Arbitrary reals: integers of almost the full mantissa.
fn real_dispatch(r: &mut Rng, ctx: &mut Ctx) -> R {
    let small = r.chance(1, 3);
    dispatch!(small, real(r, ctx))
}
pub fn real_scale<T: Num>(r: &mut Rng) -> i32 {
    if T::BITS == 24 {
        *r.pick(&[-52, -50, -60, -40, -100, 100, 0, -46])
    } else {
        *r.pick(&[-22, -20, -30, -10, 0, 15, -25])
    }
}
fn real<T: Num>(r: &mut Rng, ctx: &mut Ctx) -> R {
    let b = 1i64 << (T::REAL_BITS - 2);
    let mut v = any_chain(r, b);
    if extent(v.iter()) < b / 100 {
        // lattice shape: give it real coordinates
        let k = b / 400 / extent(v.iter()).max(1);
        for q in v.iter_mut() {
            *q = p(q.x * k, q.y * k);
        }
        let closed = is_closed(&v);
        let d = (k / 8).max(1);
        let mut seen = std::collections::HashMap::new();
        for q in v.iter_mut() {
            let o = *q;
            *q = *seen.entry(o).or_insert_with(|| p(o.x + r.range(-d, d), o.y + r.range(-d, d)));
        }
        if closed {
            let f = v[0];
            *v.last_mut().unwrap() = f;
        }
    }
    let bits = if T::BITS == 24 { 20 } else { 11 };
    if v.len() < 3 || extent(v.iter()) >= 4 * b || !ls_clear(&v, bits) {
        ctx.cat("real: not clear, skipped");
        return Ok(());
    }
    let verdict = ls_check(&v);
    let cv = Conv::plain(real_scale::<T>(r));
    ctx.eval();
    ctx.cat(if verdict == LsV::Valid { "real: valid" } else { "real: invalid" });
    if v.len() > 3 {
        ctx.nontrivial(hash_ls::<T>(11, &v, cv.s));
    }
    ctx.sample(|| format!("{} {} {} -> {:?}", T::NAME, show(&v), cv.show(), verdict));
    run_ls::<T>(&v, verdict == LsV::Valid, &format!("{:?}", verdict), &cv)
}

// ------------------------------------------------------------------- C12

/// Members of over 65536 positions, one above the other, and what they may share.
fn long_members(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    let (mut a, mut b) = long_rings(r);
    let k = 1 + r.spot(b.len() - 5);
    let j = (0..a.len()).find(|&j| a[j].x == b[k].x).unwrap();
    let open = i % 8 < 6;
    if open {
        a.truncate(a.len() - 3);
        b.truncate(b.len() - 3);
    }
    let up = p(b[k].x, 22);
    let (extra, want) = match i % 8 {
        0 => (None, true),
        1 => {
            b[k] = a[j];
            (None, false)
        }
        2 => {
            b[k].y = -20;
            (None, false)
        }
        // from the end of one to the end of the other
        3 => (Some(vec![a[0], p(-7, 0), p(-7, 30), b[0]]), true),
        4 => (Some(vec![up, b[k]]), false),
        5 => (Some(vec![up, a[j]]), false),
        6 => (None, true),
        // no end points on a closed one
        _ => (Some(vec![up, b[b.len() - 1], p(up.x, 23)]), false),
    };
    let mut v = vec![a, b];
    v.extend(extra);
    r.shuffle(&mut v);
    let m = rand_map(r, extent(v.iter().flatten()), 53 / 2);
    if m.very {
        return Ok(());
    }
    let v: Vec<Vec<P>> = v.iter().map(|l| { let mut l = m.all(l); if r.bool() { l.reverse(); } l }).collect();
    let cv = Conv::rand::<f64>(r);
    ctx.eval();
    ctx.cat("over 65536 positions");
    ctx.nontrivial(hash_vv::<f64>(12, &v, cv.s));
    run_mls::<f64>(&v, want, "by construction", &cv)
}

fn c12(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    if i < 24 {
        return long_members(i, r, ctx);
    }
    if i < 4_000 {
        return many(i, r, ctx);
    }
    if i % 6 == 5 {
        let small = r.chance(1, 3);
        return dispatch!(small, mls_real(r, ctx));
    }
    let b = bound(r, 24);
    let v = any_mls(r, b);
    let e = extent(v.iter().flatten());
    let small = e <= 1 << 10 && r.chance(2, 5);
    if e > 1 << 24 {
        return Ok(());
    }
    dispatch!(small, mls(&v, e, r, ctx))
}

fn run_mls<T: Num>(v: &[Vec<P>], want: bool, why: &str, cv: &Conv) -> R {
    let r = (|| {
        let m: MultiLineString<T> = sut("MultiLineString::new", || cv.mls(v))?;
        let got = sut("MultiLineString::validate", || m.validate())?;
        let simple = sut("MultiLineString::is_simple", || m.is_simple())?;
        judge("MultiLineString", want, why, got, simple)
    })();
    with_input(r, || format!("{} {} {}", T::NAME, show2(v), cv.show()))
}

fn mls<T: Num>(v: &[Vec<P>], e: i64, r: &mut Rng, ctx: &mut Ctx) -> R {
    let m = rand_map(r, e, T::BITS);
    let v = m.all2(v);
    let verdict = mls_check(&v);
    if m.very && !matches!(verdict, MlsV::Valid | MlsV::Interior | MlsV::ClosedEnd | MlsV::Overlap) {
        return Ok(());
    }
    let cv = Conv::exact::<T>(r);
    ctx.eval();
    ctx.cat(match verdict {
        MlsV::Valid => "valid",
        MlsV::Member(_) => "member invalid",
        MlsV::Interior => "Interior",
        MlsV::ClosedEnd => "ClosedEnd",
        MlsV::Cross => "Cross",
        MlsV::Overlap => "Overlap",
    });
    if verdict == MlsV::Valid {
        let mut ends = std::collections::HashMap::new();
        for m in v.iter().filter(|m| !m.is_empty()) {
            *ends.entry(m[0]).or_insert(0) += 1;
            *ends.entry(m[m.len() - 1]).or_insert(0) += 1;
        }
        if ends.values().any(|&k| k > 1) && v.iter().filter(|m| !m.is_empty()).count() > 1 {
            ctx.cat("valid touching");
        }
    }
    if let Some((lo, hi)) = bbox(&v.concat()) {
        if lo.x == hi.x || lo.y == hi.y {
            ctx.cat("flat");
        }
    }
    if v.iter().filter(|m| !m.is_empty()).count() > 1 {
        ctx.nontrivial(hash_vv::<T>(12, &v, cv.s));
    }
    ctx.sample(|| format!("{} {} {} -> {:?}", T::NAME, show2(&v), cv.show(), verdict));
    run_mls::<T>(&v, verdict == MlsV::Valid, &format!("{:?}", verdict), &cv)
}

fn many(i: u64, r: &mut Rng, ctx: &mut Ctx) -> R {
    let w = 5 + r.range(0, 25);
    let h = 5 + r.range(0, 25);
    let mut ms = if i % 5 == 4 {
        // one long horizontal or vertical line cut into many members
        let n = if i < 30 { 2000 } else { 200 + r.range(0, 800) };
        let t = r.bool();
        (0..n).map(|k| vec![p(2 * k, 0), p(2 * k + 2, 0)].into_iter().map(|v| if t { p(v.y, v.x) } else { v }).collect()).collect()
    } else {
        street_grid(w, h)
    };
    match r.below(6) {
        5 => {
            // one reaches into the next
            let i = r.spot(ms.len());
            let l = ms[i].len() - 1;
            let (a, b) = (ms[i][l - 1], ms[i][l]);
            ms[i][l] = p(2 * b.x - (a.x + b.x) / 2, 2 * b.y - (a.y + b.y) / 2);
        }
        0 | 1 => (),
        2 => {
            // merge two members that share an end
            let i = r.spot(ms.len());
            let e = *ms[i].last().unwrap();
            if let Some(j) = (0..ms.len()).find(|&j| j != i && ms[j][0] == e) {
                let t = ms[j][1..].to_vec();
                ms[i].extend(t);
                ms.remove(j);
            }
        }
        3 => {
            // an extra member starting at the middle of another
            let i = r.spot(ms.len());
            let (a, b) = (ms[i][0], ms[i][1]);
            let m = p((a.x + b.x) / 2, (a.y + b.y) / 2);
            ms.push(vec![m, p(m.x + if a.y == b.y { 0 } else { 1 }, m.y + if a.y == b.y { 1 } else { 0 })]);
        }
        _ => {
            // diagonal across a cell
            let (x, y) = (2 * r.range(0, w - 2), 2 * r.range(0, h - 2));
            ms.push(vec![p(x, y), p(x + 2, y + 2)]);
        }
    }
    match r.below(4) {
        0 | 1 => r.shuffle(&mut ms),
        2 => ms.reverse(),
        _ => (),
    }
    let e = extent(ms.iter().flatten());
    ctx.cat("many members");
    dispatch!(false, mls(&ms, e, r, ctx))
}

fn mls_real<T: Num>(r: &mut Rng, ctx: &mut Ctx) -> R {
    let b = 1i64 << (T::REAL_BITS - 2);
    let k = 1 + r.us(5);
    let mut ms: Vec<Vec<P>> = vec![];
    for _ in 0..k {
        let mut m = any_chain(r, b);
        m.truncate(9);
        if extent(m.iter()) < b / 100 {
            let n = 2 + r.us(4);
            m = two_opt(r, n, b, false);
        }
        if r.bool() {
            // shrink so that members have a chance of being apart
            let c = pt(r, b / 2);
            m = m.iter().map(|q| p(c.x + q.x / 5, c.y + q.y / 5)).collect();
        }
        if !ms.is_empty() && r.bool() {
            // start at another member's end, bit for bit
            let o = r.us(ms.len());
            let q = if r.bool() { ms[o][0] } else { *ms[o].last().unwrap() };
            if r.bool() {
                m[0] = q;
            } else {
                *m.last_mut().unwrap() = q;
            }
        }
        if m.len() >= 2 {
            ms.push(m);
        }
        if ms.len() > 1 && r.chance(3, 4) && matches!(mls_check(&ms), MlsV::Cross | MlsV::Overlap) {
            ms.pop();
        }
    }
    let bits = if T::BITS == 24 { 20 } else { 11 };
    if ms.iter().any(|m| !ls_clear(m, bits)) || extent(ms.iter().flatten()) >= 4 * b {
        ctx.cat("real: not clear, skipped");
        return Ok(());
    }
    let groups: Vec<Vec<(P, P)>> = ms.iter().map(|m| segs_of(m)).collect();
    let mut clear = true;
    cross_pairs(&groups, |g, i, h, j| {
        let (s, t) = (groups[g][i], groups[h][j]);
        // a shared vertex must be clearly not parallel, everything else clearly apart
        let mut ok = false;
        let mut shared = false;
        for (a, o) in [(s.0, s.1), (s.1, s.0)] {
            for (c, q) in [(t.0, t.1), (t.1, t.0)] {
                if a == c {
                    shared = true;
                    ok = clear_joint(o, a, q, bits);
                }
            }
        }
        if !shared {
            ok = clear_pair(s.0, s.1, t.0, t.1, bits);
        }
        clear = clear && ok;
        clear
    });
    if !clear {
        ctx.cat("real: not clear, skipped");
        return Ok(());
    }
    let verdict = mls_check(&ms);
    let cv = Conv::plain(real_scale::<T>(r));
    ctx.eval();
    ctx.cat(if verdict == MlsV::Valid { "real: valid" } else { "real: invalid" });
    if ms.len() > 1 {
        ctx.nontrivial(hash_vv::<T>(13, &ms, cv.s));
    }
    run_mls::<T>(&ms, verdict == MlsV::Valid, &format!("{:?}", verdict), &cv)
}
