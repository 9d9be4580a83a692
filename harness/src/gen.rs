//! Random maps and histories.
use crate::plan::*;
use crate::rng::Rng;
use std::collections::{HashMap, HashSet};

pub fn area(p: &[Pt]) -> i128 {
    p.windows(2).map(|w| w[0].0 as i128 * w[1].1 as i128 - w[1].0 as i128 * w[0].1 as i128).sum()
}

// ------------------------------------------------------------------ maps

/// Vertices and cells (clockwise vertex cycles) of a planar subdivision.
pub struct Net { pub v: Vec<Pt>, pub cells: Vec<Vec<usize>>, pub w: usize, pub h: usize }

/// style: 0 unit squares, 1 spaced squares, 2 jittered, 3 jittered with polyline
/// borders, 4 like 3 and triangulated
pub fn net(r: &mut Rng, w: usize, h: usize, style: u8, wide: bool) -> Net {
    let n = w.max(h) as i64;
    // sometimes everything lies on a coarse grid of powers of two
    let q: i64 = if !r.chance(1, 5) { 1 } else if wide { 1 << r.range(1, 29 - n.min(12)) } else { 1 << r.range(1, 6) };
    let s: i64 = if q > 1 { let top = if wide { 1i64 << 32 } else { 4000 }; q * (1i64 << r.range(0, 6)).min((top / n.max(1) / q).max(1)) } else if wide { (u32::MAX as i64) / n.max(1) } else { match style { 0 => 1, 1 => r.range(2, 9), _ => 24 } };
    // too coarse a grid leaves no room to move anything without crossing borders
    let room = q == 1 || s / q >= 16;
    let style = if room { style } else { style.min(1) };
    let jit = if room && (style >= 2 || wide) { s / 6 } else { 0 };
    let slack = if q > 1 { if r.chance(1, 2) { 0 } else { ((if wide { u32::MAX as i64 } else { 4000 }) - s * n).max(0) } } else if wide { u32::MAX as i64 - s * n } else { 40 };
    let (ox, oy) = if r.chance(1, 3) { (0, 0) } else { (r.range(0, slack), r.range(0, slack)) };
    let max = if wide { u32::MAX as i64 } else { 4000 };
    let clamp = |x: i64| ((x + q / 2).max(0).min(max) / q * q) as u32;
    let mut used: HashSet<Pt> = HashSet::new();
    let mut v: Vec<Pt> = vec![];
    let mut fresh = |r: &mut Rng, x: i64, y: i64, j: i64, used: &mut HashSet<Pt>| -> usize {
        let mut j = j;
        loop {
            let p = (clamp(x + r.range(-j, j)), clamp(y + r.range(-j, j)));
            if used.insert(p) { v.push(p); return v.len() - 1; }
            j += q;
        }
    };
    let mut grid = vec![vec![0; h + 1]; w + 1];
    for i in 0..=w { for j in 0..=h {
        grid[i][j] = fresh(r, ox + i as i64 * s, oy + j as i64 * s, jit, &mut used);
    } }
    // polyline between neighbouring grid vertices, inner vertices only
    let mut line: HashMap<(usize, usize), Vec<usize>> = HashMap::new();
    let mut between = |r: &mut Rng, a: (usize, usize), b: (usize, usize), used: &mut HashSet<Pt>| {
        let mut inner = vec![];
        if style >= 3 {
            let k = r.range(0, 2);
            for q in 1..=k {
                let x = ox + ((b.0 as i64) * q + (a.0 as i64) * (k + 1 - q)) * s / (k + 1);
                let y = oy + ((b.1 as i64) * q + (a.1 as i64) * (k + 1 - q)) * s / (k + 1);
                inner.push(fresh(r, x, y, s / 8, used));
            }
        }
        let (va, vb) = (grid[a.0][a.1], grid[b.0][b.1]);
        line.insert((va, vb), inner.clone());
        inner.reverse();
        line.insert((vb, va), inner);
    };
    for i in 0..=w { for j in 0..=h {
        if i < w { between(r, (i, j), (i + 1, j), &mut used); }
        if j < h { between(r, (i, j), (i, j + 1), &mut used); }
        if style == 4 && i < w && j < h { between(r, (i, j), (i + 1, j + 1), &mut used); }
    } }
    let mut cells = vec![];
    let cycle = |corners: &[usize]| {
        let mut c = vec![];
        for k in 0..corners.len() {
            let (a, b) = (corners[k], corners[(k + 1) % corners.len()]);
            c.push(a);
            c.extend_from_slice(&line[&(a, b)]);
        }
        c
    };
    for j in 0..h { for i in 0..w {
        let (a, b, c, d) = (grid[i][j], grid[i + 1][j], grid[i + 1][j + 1], grid[i][j + 1]);
        if style == 4 {
            cells.push(cycle(&[a, b, c]));
            cells.push(cycle(&[a, c, d]));
        } else {
            cells.push(cycle(&[a, b, c, d]));
        }
    } }
    Net { v, cells, w, h }
}

/// A label per cell; 0 is nothing.
pub fn labels(r: &mut Rng, n: &Net, k: u64) -> Vec<u64> {
    let per = n.cells.len() / (n.w * n.h);
    let mut l = vec![0; n.cells.len()];
    match r.below(4) {
        0 => for x in l.iter_mut() { *x = r.below(k + 1); },
        1 => for x in l.iter_mut() { *x = 1 + r.below(k); },
        _ => {
            let base = r.below(2) * (1 + r.below(k));
            for x in l.iter_mut() { *x = base; }
            for _ in 0..r.range(1, 5) {
                let (x0, y0) = (r.us(0, n.w - 1), r.us(0, n.h - 1));
                let (x1, y1) = (r.us(x0, n.w - 1), r.us(y0, n.h - 1));
                let lab = r.below(k + 1);
                for y in y0..=y1 { for x in x0..=x1 { for q in 0..per { l[(y * n.w + x) * per + q] = lab; } } }
            }
        }
    }
    l
}

/// Maps with many rings: holes, holes filled by others, rings within rings, islands, combs.
pub fn nested(r: &mut Rng, n: &Net, k: u64) -> Vec<u64> {
    let per = n.cells.len() / (n.w * n.h);
    let (w, h) = (n.w, n.h);
    let base = 1 + r.below(k);
    let kind = r.below(4);
    let fill = r.below(k + 1);
    let odd = r.below(2);
    let mut l = vec![0; n.cells.len()];
    for y in 0..h { for x in 0..w {
        let lab = match kind {
            // holes in one region
            0 => if x % 2 == 1 && y % 2 == 1 && x + 1 < w && y + 1 < h { if r.chance(1, 3) { r.below(k + 1) } else { fill } } else { base },
            // rings within rings
            1 => { let d = x.min(y).min(w - 1 - x).min(h - 1 - y); if k > 1 { (base + d as u64) % (k + 1) } else { (d as u64 + odd) % 2 } }
            // islands
            2 => if x % 2 == 0 && y % 2 == 0 { if r.chance(1, 4) { r.below(k + 1) } else { base } } else { 0 },
            // combs
            _ => if y == 0 { base } else if y + 1 == h { fill } else if x % 2 == 0 { base } else { fill },
        };
        for q in 0..per { l[(y * w + x) * per + q] = lab; }
    } }
    l
}

/// The boundary of a set of cells, as vertex cycles; None if it touches itself.
pub fn outline(n: &Net, cells: &[usize]) -> Option<Vec<Vec<usize>>> {
    let mut segs: HashSet<(usize, usize)> = HashSet::new();
    for &c in cells { let cy = &n.cells[c]; for k in 0..cy.len() { segs.insert((cy[k], cy[(k + 1) % cy.len()])); } }
    let mut next: HashMap<usize, usize> = HashMap::new();
    let mut starts = vec![];
    for &c in cells { let cy = &n.cells[c]; for k in 0..cy.len() {
        let (a, b) = (cy[k], cy[(k + 1) % cy.len()]);
        if !segs.contains(&(b, a)) {
            if next.insert(a, b).is_some() { return None; }
            starts.push(a);
        }
    } }
    let mut seen = HashSet::new();
    let mut ret = vec![];
    for s in starts {
        if seen.contains(&s) { continue; }
        let mut c = vec![];
        let mut x = s;
        loop { seen.insert(x); c.push(x); x = next[&x]; if x == s { break; } }
        ret.push(c);
    }
    Some(ret)
}

/// How a map is written down.
#[derive(Clone, Copy)]
pub struct Repr { pub grouping: u8, pub cuts: u8, pub reverse: bool, pub zeros: bool, pub slits: bool }
pub fn repr(r: &mut Rng) -> Repr {
    Repr { grouping: r.below(3) as u8, cuts: r.below(3) as u8, reverse: r.chance(1, 3), zeros: r.chance(1, 8), slits: r.chance(1, 4) }
}

/// Lets a ring run along a border between two of its own cells and back, to
/// nowhere or to another ring, which it then takes in.
fn slit(r: &mut Rng, n: &Net, cells: &[usize], cs: &mut Vec<Vec<usize>>, forced: &mut Vec<usize>) {
    for _ in 0..r.us(1, 3) {
        let mut uses: HashMap<(usize, usize), usize> = HashMap::new();
        for &c in cells { let m = n.cells[c].len(); for q in 0..m {
            let (a, b) = (n.cells[c][q], n.cells[c][(q + 1) % m]);
            *uses.entry((a.min(b), a.max(b))).or_insert(0) += 1;
        } }
        let on = |v: usize| cs.iter().enumerate().filter(|x| x.1.contains(&v)).map(|x| x.0).collect::<Vec<_>>();
        let taken = |a: usize, b: usize| cs.iter().any(|c| (0..c.len()).any(|q| { let (x, y) = (c[q], c[(q + 1) % c.len()]); (x, y) == (a, b) || (y, x) == (a, b) }));
        // from a vertex on one ring, along a free inner border, to a vertex on no ring or another
        let mut ways = vec![];
        let mut inner: Vec<(usize, usize)> = uses.iter().filter(|x| *x.1 == 2).map(|x| *x.0).collect();
        inner.sort();
        for (x, y) in inner { for (a, b) in [(x, y), (y, x)] {
            if taken(a, b) { continue; }
            let (oa, ob) = (on(a), on(b));
            if oa.len() == 1 && cs[oa[0]].iter().filter(|&&v| v == a).count() == 1 && (ob.is_empty() || ob.len() == 1 && ob[0] != oa[0] && cs[ob[0]].iter().filter(|&&v| v == b).count() == 1) { ways.push((a, b, oa[0], ob)); }
        } }
        if ways.is_empty() { return; }
        let (a, b, ra, ob) = r.pick(&ways).clone();
        let mut c = cs[ra].clone();
        let q = c.iter().position(|&v| v == a).unwrap();
        c.rotate_left(q);
        let mut ins = vec![a, b];
        if let Some(&rb) = ob.first() {
            let mut d = cs[rb].clone();
            let q = d.iter().position(|&v| v == b).unwrap();
            d.rotate_left(q);
            ins = vec![a];
            ins.extend_from_slice(&d);
            ins.push(b);
        }
        ins.extend_from_slice(&c); // a .. a, then the rest of a's ring
        cs[ra] = ins;
        if let Some(&rb) = ob.first() { cs.remove(rb); }
        forced.push(a);
        forced.push(b);
    }
}

/// Regions for labels 1..=k, in that order (absent labels left out).
pub fn regions(r: &mut Rng, n: &Net, lab: &[u64], k: u64, rp: Repr) -> Vec<RegionIn> {
    struct R { g: u64, kind: u8, cyc: Vec<usize> }
    let mut rings: Vec<R> = vec![];
    let mut forced: Vec<usize> = vec![];
    for g in 1..=k {
        let cells: Vec<usize> = (0..lab.len()).filter(|&c| lab[c] == g).collect();
        let mut groups: HashMap<u64, Vec<usize>> = HashMap::new();
        for &c in &cells {
            let key = match rp.grouping { 0 => c as u64, 1 => 0, _ => r.below(3) };
            groups.entry(key).or_insert(vec![]).push(c);
        }
        let mut keys: Vec<u64> = groups.keys().cloned().collect();
        keys.sort();
        for key in keys {
            let gr = &groups[&key];
            match outline(n, gr) {
                Some(mut cs) => {
                    if rp.slits && gr.len() > 1 { slit(r, n, gr, &mut cs, &mut forced); }
                    for cyc in cs {
                    let mut p: Path = cyc.iter().map(|&i| n.v[i]).collect();
                    p.push(p[0]);
                    rings.push(R { g, kind: if area(&p) > 0 { 0 } else { 1 }, cyc });
                } },
                None => for &c in gr { rings.push(R { g, kind: 0, cyc: n.cells[c].clone() }); },
            }
        }
    }
    // where paths must be cut: where the rings on both sides change
    let key = |a: usize, b: usize| if a < b { (a, b) } else { (b, a) };
    let mut on: HashMap<(usize, usize), Vec<usize>> = HashMap::new();
    for (x, ring) in rings.iter().enumerate() { for q in 0..ring.cyc.len() {
        on.entry(key(ring.cyc[q], ring.cyc[(q + 1) % ring.cyc.len()])).or_insert(vec![]).push(x);
    } }
    let mut cut = vec![false; n.v.len()];
    for &i in &forced { cut[i] = true; }
    for ring in &rings {
        let m = ring.cyc.len();
        for q in 0..m {
            let (a, b, c) = (ring.cyc[(q + m - 1) % m], ring.cyc[q], ring.cyc[(q + 1) % m]);
            if on[&key(a, b)] != on[&key(b, c)] { cut[b] = true; }
        }
    }
    // a vertex several rings meet in is cut for all of them or none
    for i in 0..cut.len() {
        if rp.cuts == 2 || rp.cuts == 1 && r.chance(1, 3) { cut[i] = true; }
    }
    for ring in &rings {
        if !ring.cyc.iter().any(|&i| cut[i]) { cut[*r.pick(&ring.cyc)] = true; }
    }
    let mut ret: Vec<RegionIn> = vec![];
    for g in 1..=k {
        let (mut o, mut i) = (vec![], vec![]);
        for ring in rings.iter().filter(|x| x.g == g) {
            let mut cyc = ring.cyc.clone();
            if rp.reverse && r.chance(1, 2) { cyc.reverse(); }
            let starts: Vec<usize> = (0..cyc.len()).filter(|&q| cut[cyc[q]]).collect();
            let s = *r.pick(&starts);
            cyc.rotate_left(s);
            cyc.push(cyc[0]);
            let pts: Path = cyc.iter().map(|&q| n.v[q]).collect();
            let rin = if starts.len() + 1 == cyc.len() && r.chance(1, 2) {
                let mut p = pts;
                if rp.zeros { let q = r.us(0, p.len() - 1); let x = p[q]; p.insert(q, x); }
                RingIn::P(p)
            } else {
                let mut e: Vec<Path> = vec![];
                let mut cur = vec![pts[0]];
                for q in 1..pts.len() {
                    cur.push(pts[q]);
                    if cut[cyc[q]] || q + 1 == pts.len() { e.push(cur); cur = vec![pts[q]]; }
                }
                if rp.zeros {
                    let q = r.us(0, e.len() - 1);
                    let x = e[q][0];
                    e.insert(q, if r.chance(1, 2) { vec![x, x] } else { vec![x] });
                }
                RingIn::E(e)
            };
            if ring.kind == 0 { o.push(rin) } else { i.push(rin) }
        }
        r.shuffle(&mut o);
        r.shuffle(&mut i);
        if o.len() > 0 { ret.push(RegionIn { d: g as u32 * 11, o, i }); }
    }
    ret
}

/// Arbitrary rings, sharing paths at random; nothing needs to make sense.
pub fn freeform(r: &mut Rng, wide: bool) -> Vec<RegionIn> {
    let max: u64 = if wide { u32::MAX as u64 + 1 } else { *r.pick(&[4u64, 9, 60, 2000]) };
    let coarse = r.chance(1, 6);
    let shift = r.below(29);
    let coord = |r: &mut Rng| -> u32 {
        if wide && coarse { (r.below(16) << shift).min(u32::MAX as u64) as u32 } else if wide { if r.chance(1, 5) { *r.pick(&[0, u32::MAX, 1, u32::MAX - 1]) } else { r.below(max) as u32 } } else { r.below(max) as u32 }
    };
    let pt = |r: &mut Rng| (coord(r), coord(r));
    let mut pool: Vec<Path> = vec![];
    let mut done: Vec<Vec<Path>> = vec![];
    let mut ret = vec![];
    for g in 0..r.range(1, 4) {
        let mut rings = [vec![], vec![]];
        for kind in 0..2 {
            let lo = if kind == 0 && r.chance(9, 10) { 1 } else { 0 };
            let hi = if r.chance(1, 8) { 5 } else { 2 };
            for _ in 0..r.range(lo, hi) {
                let ring = match r.below(9) {
                    8 => { // there and back, along two paths that differ in one point
                        let p: Path = (0..r.range(3, 16)).map(|_| pt(r)).collect();
                        let mut q = p.clone();
                        let at = if r.chance(1, 3) { q.len() - 2 } else { r.us(1, q.len() - 2) };
                        if r.chance(1, 2) { q[at] = pt(r); } else if r.chance(1, 2) { q[at].1 ^= 1; } else { q.remove(at); if q.len() < 2 { q = p.clone(); } }
                        q.reverse();
                        let e = if p[0] == p[p.len() - 1] { vec![p] } else { vec![p, q] };
                        for x in &e { pool.push(x.clone()); }
                        done.push(e.clone());
                        RingIn::E(e)
                    }
                    7 => { // a rectangle
                        let (a, b) = (pt(r), pt(r));
                        let a = if r.chance(1, 2) { (0, a.1) } else { a };
                        let c = [a, (b.0, a.1), b, (a.0, b.1), a];
                        let e: Vec<Path> = if r.chance(1, 2) { c.windows(2).map(|w| w.to_vec()).collect() } else { vec![c[..2].to_vec(), c[1..].to_vec()] };
                        done.push(e.clone());
                        RingIn::E(e)
                    }
                    6 if done.len() > 0 => { // a ring already used, the other way round
                        let mut e = r.pick(&done).clone();
                        for p in e.iter_mut() { p.reverse(); }
                        e.reverse();
                        let q = r.us(0, e.len() - 1);
                        e.rotate_left(q);
                        RingIn::E(e)
                    }
                    0 | 1 => { // points
                        let mut p: Path = (0..r.range(3, 7)).map(|_| pt(r)).collect();
                        if r.chance(1, 6) { let x = p[1]; p.insert(1, x); }
                        if r.chance(1, 8) { let q = p[1]; p = vec![p[0], q, p[0], q]; }
                        let x = p[0]; p.push(x);
                        RingIn::P(p)
                    }
                    2 if pool.len() > 0 => { // a path already used, and a way back
                        let mut p = r.pick(&pool).clone();
                        if r.chance(1, 2) { p.reverse(); }
                        let (a, b) = (p[0], p[p.len() - 1]);
                        if a == b { RingIn::E(vec![p]) } else {
                            let mut back = vec![b];
                            for _ in 0..r.range(0, 3) { back.push(pt(r)); }
                            back.push(a);
                            pool.push(back.clone());
                            RingIn::E(vec![p, back])
                        }
                    }
                    3 => { // an island
                        let mut p: Path = (0..r.range(3, 9)).map(|_| pt(r)).collect();
                        let x = p[0]; p.push(x);
                        pool.push(p.clone());
                        RingIn::E(vec![p])
                    }
                    _ => {
                        let mut p: Path = (0..r.range(3, 10)).map(|_| pt(r)).collect();
                        let x = p[0]; p.push(x);
                        let mut e = vec![];
                        let mut cur = vec![p[0]];
                        for q in 1..p.len() {
                            cur.push(p[q]);
                            if q + 1 == p.len() || r.chance(1, 3) { pool.push(cur.clone()); e.push(cur); cur = vec![p[q]]; }
                        }
                        done.push(e.clone());
                        if r.chance(1, 8) { let x = e[0][0]; e.insert(0, vec![x, x]); }
                        if r.chance(1, 12) { e.push(vec![]); }
                        RingIn::E(e)
                    }
                };
                rings[kind].push(ring);
            }
        }
        let [o, i] = rings;
        ret.push(RegionIn { d: g as u32 * 7 + 3, o, i });
    }
    ret
}

pub fn all_points(rs: &[RegionIn]) -> Vec<Pt> {
    let mut v = vec![];
    for r in rs { for x in r.o.iter().chain(&r.i) { match x { RingIn::P(p) => v.extend_from_slice(p), RingIn::E(e) => for p in e { v.extend_from_slice(p); } } } }
    v
}

pub fn mask(r: &mut Rng, pts: &[Pt], wide: bool) -> Mask {
    let k = r.below(4) as u8;
    let c = |p: Pt| if k < 2 { p.0 } else { p.1 };
    let max = if wide { u32::MAX } else { 4000 };
    let v = if pts.is_empty() { r.below(10) as u32 } else {
        let a = c(*r.pick(pts));
        let b = c(*r.pick(pts));
        match r.below(12) {
            0 | 1 | 2 => a,
            3 => a.saturating_add(1).min(max),
            4 => a.saturating_sub(1),
            5 => *r.pick(&[0, max]),
            6 => pts.iter().map(|p| c(*p)).min().unwrap(),
            7 => pts.iter().map(|p| c(*p)).max().unwrap(),
            8 => ((a as u64 + b as u64) / 2) as u32,
            _ => { let (lo, hi) = (a.min(b), a.max(b)); r.range(lo as i64, hi as i64) as u32 }
        }
    };
    Mask { k, v }
}

pub fn threshold(r: &mut Rng, pts: &[Pt], wide: bool) -> u64 {
    let tri = |a: Pt, b: Pt, c: Pt| ((b.0 as i128 - a.0 as i128) * (c.1 as i128 - a.1 as i128) - (c.0 as i128 - a.0 as i128) * (b.1 as i128 - a.1 as i128)).abs() as u64;
    if pts.len() < 3 { return r.below(3); }
    let q = r.us(0, pts.len() - 3);
    let t = tri(pts[q], pts[q + 1], pts[q + 2]);
    let v = match r.below(10) {
        0 => 0,
        1 => u64::MAX,
        2 => r.below(8),
        3 => t.saturating_sub(1),
        4 => t.saturating_add(1),
        5 => t / 2,
        6 => t.saturating_mul(3),
        7 => { let (a, b, c) = (*r.pick(pts), *r.pick(pts), *r.pick(pts)); tri(a, b, c) }
        _ => t,
    };
    if !wide && v != u64::MAX { v.min(0x7fff_fff0) } else { v }
}

pub fn small_map(r: &mut Rng, wide: bool, big: bool) -> (Net, Vec<u64>, u64) {
    let (w, h) = if big { (r.us(4, 9), r.us(4, 9)) } else { *r.pick(&[(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3), (3, 3), (4, 3), (4, 4), (5, 3), (5, 5)]) };
    let many = r.chance(1, 5);
    let (w, h) = if many && !big { *r.pick(&[(3, 3), (5, 3), (3, 5), (5, 5), (7, 3), (5, 5)]) } else { (w, h) };
    let style = r.below(5) as u8;
    let n = net(r, w, h, style, wide);
    let k = 1 + r.below(4);
    let lab = if many { nested(r, &n, k) } else { labels(r, &n, k) };
    (n, lab, k)
}

fn source(r: &mut Rng, wide: bool, big: bool) -> Vec<RegionIn> {
    if r.chance(1, 4) { freeform(r, wide) } else {
        let (n, lab, k) = small_map(r, wide, big);
        let rp = repr(r);
        regions(r, &n, &lab, k, rp)
    }
}

// ------------------------------------------------------------------ histories

/// Long single paths for simplification
fn paths_region(r: &mut Rng, wide: bool) -> (Vec<RegionIn>, Vec<Pt>) {
    let tied = r.chance(1, 2);
    let max: u64 = if wide { 1 << 32 } else if tied { *r.pick(&[3u64, 5, 8]) } else { 4000 };
    let len = |r: &mut Rng| if tied { r.us(2, 9) } else if wide { r.us(3, 16) } else { r.us(3, 40) };
    let walk = r.chance(1, 2);
    let coord = |r: &mut Rng, prev: Option<u32>| -> u32 {
        match prev {
            Some(p) if walk && !tied => { let s = (max / 12) as i64; (p as i64 + r.range(-s, s)).max(0).min(max as i64 - 1) as u32 }
            _ => if wide && r.chance(1, 6) { *r.pick(&[0, u32::MAX]) } else { r.below(max) as u32 },
        }
    };
    let path = |r: &mut Rng, n: usize| {
        let mut p: Path = vec![];
        for _ in 0..n { let l = p.last().cloned(); p.push((coord(r, l.map(|x: Pt| x.0)), coord(r, l.map(|x| x.1)))); }
        p
    };
    let mut rings = vec![];
    let mut all = vec![];
    for _ in 0..r.range(1, 3) {
        let n = len(r).max(3);
        let mut p = path(r, n);
        if r.chance(1, 2) {
            let x = p[0]; p.push(x);
            all.extend_from_slice(&p);
            rings.push(RingIn::E(vec![p]));
        } else {
            let m = len(r).max(2);
            let mut q = path(r, m);
            q[0] = p[p.len() - 1];
            let e = q.len() - 1; q[e] = p[0];
            all.extend_from_slice(&p); all.extend_from_slice(&q);
            rings.push(RingIn::E(vec![p, q]));
        }
    }
    (vec![RegionIn { d: 5, o: rings, i: vec![] }], all)
}

fn rand_path(r: &mut Rng, wide: bool, lo: usize, hi: usize) -> Path {
    let max: u64 = if wide { 1 << 32 } else { *r.pick(&[4u64, 10, 60, 2000]) };
    let n = r.us(lo, hi);
    let coarse = r.chance(1, 6);
    let shift = r.below(29);
    (0..n).map(|_| {
        let mut c = || if wide && coarse { (r.below(16) << shift).min(u32::MAX as u64) as u32 } else if wide && r.chance(1, 8) { let k = r.below(32); ((1u64 << k) as i64 + r.range(-1, 1)) as u32 } else if wide && r.chance(1, 4) { *r.pick(&[0, 1, u32::MAX - 1, u32::MAX]) } else { r.below(max) as u32 };
        (c(), c())
    }).collect()
}

pub fn history(r: &mut Rng, fam: &str, wide: bool) -> Vec<Op> {
    let mut ops: Vec<Op> = vec![];
    match fam {
        "build" => { let b = r.chance(1, 12); ops.push(Op::Build(source(r, wide, b))) }
        "free" => ops.push(Op::Build(freeform(r, wide))),
        "norm" => {
            let big = r.chance(1, 10);
            let (n, lab, k) = small_map(r, wide, big);
            let rp = repr(r);
            ops.push(Op::Build(regions(r, &n, &lab, k, rp)));
            ops.push(Op::Normalize(0));
        }
        "equiv" => {
            let (n, lab, k) = small_map(r, wide, false);
            let mut norms = vec![];
            for g in 0..3 {
                let mut rp = repr(r);
                if g < 2 { rp.grouping = g; }
                ops.push(Op::Build(regions(r, &n, &lab, k, rp)));
                ops.push(Op::Normalize(ops.len() - 1));
                norms.push(ops.len() - 1);
            }
            ops.push(Op::Same(norms[0], norms[1]));
            ops.push(Op::Same(norms[0], norms[2]));
            ops.push(Op::Normalize(norms[0]));
            let x = ops.len() - 1;
            ops.push(Op::Same(norms[0], x));
        }
        "hist" => {
            let src = source(r, wide, false);
            let pts = all_points(&src);
            ops.push(Op::Build(src));
            for _ in 0..r.range(1, 5) {
                let s = if r.chance(1, 6) { r.us(0, ops.len() - 1) } else { ops.len() - 1 };
                let op = match r.below(6) { 0 | 1 => Op::Normalize(s), 2 | 3 => Op::Clip(s, mask(r, &pts, wide)), _ => Op::Simplify(s, threshold(r, &pts, wide)) };
                ops.push(op);
            }
        }
        // the same history, several times over
        "twice" => {
            let big = r.chance(1, 15);
            let src = source(r, wide, big);
            let pts = all_points(&src);
            let n = r.us(1, 4);
            let steps: Vec<Op> = (0..n).map(|k| match r.below(6) { 0 | 1 => Op::Normalize(k), 2 | 3 => Op::Clip(k, mask(r, &pts, wide)), _ => Op::Simplify(k, threshold(r, &pts, wide)) }).collect();
            for copy in 0..2 {
                let at = ops.len();
                ops.push(Op::Build(src.clone()));
                for s in &steps {
                    ops.push(match s { Op::Normalize(k) => Op::Normalize(at + k), Op::Clip(k, m) => Op::Clip(at + k, *m), Op::Simplify(k, t) => Op::Simplify(at + k, *t), _ => unreachable!() });
                }
                if copy == 1 { for k in 0..n + 1 { ops.push(Op::Twice(k, at + k)); } }
            }
            // and a step alone, on the same topology
            let s = r.us(0, n - 1);
            ops.push(match &steps[s] { Op::Normalize(k) => Op::Normalize(*k), Op::Clip(k, m) => Op::Clip(*k, *m), Op::Simplify(k, t) => Op::Simplify(*k, *t), _ => unreachable!() });
            let x = ops.len() - 1;
            ops.push(Op::Twice(s + 1, x));
        }
        "clip" => {
            let b = r.chance(1, 12);
            let src = source(r, wide, b);
            let pts = all_points(&src);
            ops.push(Op::Build(src));
            if r.chance(1, 3) { ops.push(Op::Normalize(0)); }
            let s = ops.len() - 1;
            for _ in 0..3 { let m = mask(r, &pts, wide); ops.push(Op::Clip(s, m)); }
            let last = ops.len() - 1;
            let m = mask(r, &pts, wide);
            ops.push(Op::Clip(last, m));
        }
        "again" => {
            let src = source(r, wide, false);
            let pts = all_points(&src);
            ops.push(Op::Build(src));
            let m = mask(r, &pts, wide);
            ops.push(Op::Clip(0, m));
            ops.push(Op::Clip(1, m));
            ops.push(Op::Again(1, 2));
            // a mask with nothing outside, on either side
            let k = r.below(4) as u8;
            let it = pts.iter().map(|p| if k < 2 { p.0 } else { p.1 });
            let v = if pts.is_empty() { 0 } else if k % 2 == 0 { it.min().unwrap() } else { it.max().unwrap() };
            let v = if r.chance(1, 3) { if k % 2 == 0 { v.saturating_sub(1) } else { v.saturating_add(1) } } else { v };
            ops.push(Op::Clip(0, Mask { k, v }));
        }
        "rect" => {
            let src = source(r, wide, false);
            let pts = all_points(&src);
            ops.push(Op::Build(src));
            let mut ms: Vec<Mask> = vec![];
            for _ in 0..r.range(2, 5) { ms.push(mask(r, &pts, wide)); }
            for _ in 0..2 {
                r.shuffle(&mut ms);
                let mut s = 0;
                for m in &ms { ops.push(Op::Clip(s, *m)); s = ops.len() - 1; }
                ops.push(Op::Rect(0, s, ms.clone()));
            }
        }
        "simp" => {
            let (src, pts) = if r.chance(1, 4) { let s = source(r, wide, false); let p = all_points(&s); (s, p) } else { paths_region(r, wide) };
            ops.push(Op::Build(src));
            if r.chance(1, 4) { ops.push(Op::Normalize(0)); }
            if r.chance(1, 5) { let m = mask(r, &pts, wide); let s = ops.len() - 1; ops.push(Op::Clip(s, m)); }
            let s = ops.len() - 1;
            let mut ts: Vec<u64> = (0..r.range(1, 3)).map(|_| threshold(r, &pts, wide)).collect();
            ts.sort();
            let first = ops.len();
            for t in &ts { ops.push(Op::Simplify(s, *t)); }
            for q in 1..ts.len() { ops.push(Op::Mono(first + q - 1, first + q)); }
        }
        // many regions, rings and edges
        "grandt" | "grandb" | "grandn" | "grandc" | "grands" => {
            let (w, h) = (r.us(10, 18), r.us(10, 18));
            let style = if wide { 2 } else { *r.pick(&[0u8, 2]) };
            let n = net(r, w, h, style, wide);
            let k = if r.chance(1, 2) { 300 } else { 6 };
            // labels in runs, so that outlines are long
            let mut lab = vec![0u64; n.cells.len()];
            let mut cur = 1;
            for x in lab.iter_mut() { if r.chance(1, 3) { cur = r.below(k + 1); } *x = cur; }
            let mut rp = repr(r);
            rp.grouping = if fam == "grandn" { 0 } else { *r.pick(&[0, 2]) };
            let src = regions(r, &n, &lab, k, rp);
            let pts = all_points(&src);
            ops.push(Op::Build(src));
            match fam {
                "grandn" => ops.push(Op::Normalize(0)),
                "grandc" => { let m = mask(r, &pts, wide); ops.push(Op::Clip(0, m)); }
                "grandt" => {
                    let src = match &ops[0] { Op::Build(s) => s.clone(), _ => unreachable!() };
                    let (m, t) = (mask(r, &pts, wide), threshold(r, &pts, wide));
                    for at in [0, 4] {
                        if at > 0 { ops.push(Op::Build(src.clone())); }
                        ops.push(Op::Clip(at, m));
                        ops.push(Op::Normalize(at));
                        ops.push(Op::Simplify(at + 2, t));
                    }
                    for k in 0..4 { ops.push(Op::Twice(k, k + 4)); }
                }
                "grands" => { let t = threshold(r, &pts, wide); ops.push(Op::Simplify(0, t)); }
                _ => {}
            }
        }
        // topologies made, used up and dropped in any order
        "own" => {
            for _ in 0..r.range(3, 9) {
                let made: Vec<usize> = (0..ops.len()).filter(|k| !matches!(ops[*k], Op::Drop(_) | Op::Abandon(_))).collect();
                if made.is_empty() || r.chance(1, 4) {
                    ops.push(if r.chance(1, 6) { Op::Abandon(freeform(r, wide)) } else { Op::Build(source(r, wide, false)) });
                    continue;
                }
                let s = *r.pick(&made);
                let pts: Vec<Pt> = ops.iter().rev().filter_map(|o| match o { Op::Build(i) => Some(all_points(i)), _ => None }).next().unwrap_or_default();
                let op = match r.below(8) {
                    0 | 1 => Op::Normalize(s),
                    2 | 3 | 4 if pts.len() > 0 => { let m = mask(r, &pts, wide); Op::Clip(s, m) }
                    5 | 6 if pts.len() > 0 => { let t = threshold(r, &pts, wide); Op::Simplify(s, t) }
                    _ => Op::Drop(s),
                };
                ops.push(op);
            }
            let mut all: Vec<usize> = (0..ops.len()).collect();
            r.shuffle(&mut all);
            for s in all { ops.push(Op::Drop(s)); }
            ops.push(Op::End);
        }
        // one long path, cut and simplified
        "longsimp" | "hugesimp" => {
            let n = match (wide, fam) { (_, "hugesimp") => r.us(1050, 1500), (true, _) => r.us(40, 200), _ => r.us(100, 500) };
            let max: u64 = if wide { 1 << 32 } else { 4000 };
            let step = (max / if r.chance(1, 2) { 3 } else { 40 }) as i64;
            let uneven = r.chance(1, 2); // steps of every order of magnitude
            let bits = 64 - (step as u64).leading_zeros() as i64;
            let mut p: Path = vec![(r.below(max) as u32, r.below(max) as u32)];
            while p.len() < n {
                let l = p[p.len() - 1];
                let mut c = |v: u32| { let s = if uneven { step >> r.range(0, bits) } else { step }; let x = v as i64 + r.range(-s, s); if x < 0 { (-x) as u32 } else if x >= max as i64 { (2 * max as i64 - 1 - x).max(0) as u32 } else { x as u32 } };
                p.push((c(l.0), c(l.1)));
            }
            let x = p[0]; p.push(x);
            let t = threshold(r, &p, wide);
            ops.push(Op::Build(vec![RegionIn { d: 5, o: vec![RingIn::E(vec![p])], i: vec![] }]));
            ops.push(Op::Simplify(0, t));
            ops.push(Op::Simplify(0, if wide { u64::MAX } else { 0x7fff_fff0 }));
        }
        "longclip" => {
            let p = rand_path(r, wide, 200, 1000);
            let m = mask(r, &p, wide);
            ops.push(Op::ClipPath(p, m));
        }
        "ring" => {
            let mut p = rand_path(r, wide, 3, 8);
            let x = p[0]; p.push(x);
            if r.chance(1, 8) { p = vec![(0, 0), (u32::MAX, 0), (u32::MAX, u32::MAX), (0, u32::MAX), (0, 0)]; if !wide { for q in p.iter_mut() { q.0 = q.0.min(4000); q.1 = q.1.min(4000); } } if r.chance(1, 2) { p.reverse(); } }
            if r.chance(1, 10) { let q = p.clone(); for _ in 0..r.us(1, 3) { p.extend_from_slice(&q[1..]); } } // several times round
            let cutup = |r: &mut Rng, p: &Path| {
                let mut e = vec![];
                let mut cur = vec![p[0]];
                for q in 1..p.len() { cur.push(p[q]); if q + 1 == p.len() || r.chance(1, 2) { e.push(cur); cur = vec![p[q]]; if r.chance(1, 30) { e.push(vec![p[q]]); } if r.chance(1, 30) { e.push(vec![p[q], p[q]]); } } }
                e
            };
            ops.push(Op::Ring(RingIn::P(p.clone())));
            ops.push(Op::Ring(RingIn::E(cutup(r, &p))));
            let mut q = p.clone(); q.reverse();
            ops.push(Op::Ring(RingIn::P(q.clone())));
            ops.push(Op::Ring(RingIn::E(cutup(r, &q))));
            q.pop(); q.rotate_left(1); let x = q[0]; q.push(x);
            ops.push(Op::Ring(RingIn::P(q)));
            let reg = |ring| Op::Build(vec![RegionIn { d: 1, o: vec![ring], i: vec![] }]);
            ops.push(reg(RingIn::P(p.clone())));
            ops.push(reg(RingIn::E(cutup(r, &p))));
        }
        "clippath" => {
            for _ in 0..4 {
                let p = if r.chance(1, 30) { rand_path(r, wide, 0, 1) } else { rand_path(r, wide, 2, 9) };
                let m = mask(r, &p, wide);
                ops.push(Op::ClipPath(p, m));
            }
        }
        "show" => {
            let long = r.chance(1, 60);
            let p = if long { rand_path(r, wide, 60, 300) } else { rand_path(r, wide, 0, 5) };
            ops.push(Op::Show(Show::Point(if wide && r.chance(1, 4) { (u32::MAX, 0) } else { rand_path(r, wide, 1, 1)[0] })));
            ops.push(Op::Show(Show::Edge(p)));
            let mut rs = freeform(r, r_wide(wide));
            if long {
                let q = rand_path(r, wide, 60, 300);
                rs[0].o.insert(0, if r.chance(1, 2) { RingIn::P(q) } else { RingIn::E(q.windows(2).map(|w| w.to_vec()).collect()) });
                let n = r.us(10, 40);
                let many: Vec<RingIn> = (0..n).map(|_| RingIn::P(rand_path(r, wide, 0, 4))).collect();
                if r.chance(1, 2) { rs[0].o.extend(many) } else { rs[0].i.extend(many) }
            }
            ops.push(Op::Show(Show::Ring(rs[0].o.first().cloned().unwrap_or(RingIn::P(vec![])))));
            ops.push(Op::Show(Show::Region(rs[0].clone())));
        }
        x => panic!("unknown family {}", x),
    }
    ops
}
fn r_wide(w: bool) -> bool { w }
