//! Random shapefiles and sessions.
use crate::read::*;
use crate::rng::Rng;

type Bits = (u64, u64);
pub struct ShpRec { pub num: u32, pub rings: Vec<Vec<Bits>> }

pub fn shp_record(r: &ShpRec) -> Vec<u8> {
    let n: usize = r.rings.iter().map(|x| x.len()).sum();
    let mut b = vec![];
    b.extend_from_slice(&5u32.to_le_bytes());
    // the record's box is not used: whatever it says must not matter
    match n % 3 {
        0 => b.extend_from_slice(&[7u8; 32]),
        1 => b.extend_from_slice(&[0xffu8; 32]),
        _ => for k in 0..4u32 { let v = r.rings.iter().flatten().map(|p| f64::from_bits(if k % 2 == 0 { p.0 } else { p.1 })).fold(f64::NAN, |a, x| if k < 2 { a.min(x) } else { a.max(x) }); b.extend_from_slice(&v.to_bits().to_le_bytes()); },
    }
    b.extend_from_slice(&(r.rings.len() as u32).to_le_bytes());
    b.extend_from_slice(&(n as u32).to_le_bytes());
    let mut at = 0u32;
    for x in &r.rings { b.extend_from_slice(&at.to_le_bytes()); at += x.len() as u32; }
    for x in &r.rings { for p in x { b.extend_from_slice(&p.0.to_le_bytes()); b.extend_from_slice(&p.1.to_le_bytes()); } }
    b
}
pub fn shp_file(bx: [u64; 4], records: &[(u32, Vec<u8>)]) -> Vec<u8> {
    let mut b = vec![0u8; 100];
    b[..4].copy_from_slice(&9994u32.to_be_bytes());
    b[28..32].copy_from_slice(&1000u32.to_le_bytes());
    b[32..36].copy_from_slice(&5u32.to_le_bytes());
    for k in 0..4 { b[36 + 8 * k..44 + 8 * k].copy_from_slice(&bx[k].to_le_bytes()); }
    for (num, c) in records {
        b.extend_from_slice(&num.to_be_bytes());
        b.extend_from_slice(&((c.len() / 2) as u32).to_be_bytes());
        b.extend_from_slice(c);
    }
    let half = (b.len() / 2) as u32;
    b[24..28].copy_from_slice(&half.to_be_bytes());
    // bytes without a meaning
    if half % 3 == 0 { for k in (4..24).chain(68..100) { b[k] = 0xa5 ^ k as u8; } }
    b
}

fn any_double(r: &mut Rng) -> u64 {
    match r.below(5) {
        0 => r.next(),
        1 => (r.range(-1000, 1000) as f64).to_bits(),
        2 => (r.range(-1_000_000_000, 1_000_000_000) as f64 / 1e6).to_bits(),
        3 => *r.pick(&[0f64.to_bits(), (-0f64).to_bits(), f64::MAX.to_bits(), f64::MIN_POSITIVE.to_bits(), 1, f64::INFINITY.to_bits(), f64::NAN.to_bits(), 0x7ff0_0000_0000_0001, 0x8000_0000_0000_0001, u64::MAX]),
        _ => (r.next() as f64 / 1e10).to_bits(),
    }
}
fn rand_rings(r: &mut Rng, max: usize) -> Vec<Vec<Bits>> {
    let parts = if r.chance(1, 2) { 1 } else { r.us(1, max) };
    (0..parts).map(|_| {
        let n = if r.chance(1, 2) { 4 } else { r.us(4, 8) };
        let mut v: Vec<Bits> = (0..n).map(|_| (any_double(r), any_double(r))).collect();
        if r.chance(3, 4) { let f = v[0]; *v.last_mut().unwrap() = f; }
        v
    }).collect()
}
fn rec_num(r: &mut Rng, i: usize) -> u32 {
    if r.chance(3, 4) { i as u32 + 1 } else { *r.pick(&[0, 0x0102_0304, u32::MAX, 7, 0x8000_0000]) }
}
fn valid_shp(r: &mut Rng, n: usize) -> Vec<u8> {
    let recs: Vec<(u32, Vec<u8>)> = (0..n).map(|i| { let num = rec_num(r, i); (num, shp_record(&ShpRec { num, rings: rand_rings(r, 4) })) }).collect();
    let bx = [any_double(r), any_double(r), any_double(r), any_double(r)];
    shp_file(bx, &recs)
}
fn small_shp(r: &mut Rng, n: usize) -> Vec<u8> {
    let recs: Vec<(u32, Vec<u8>)> = (0..n).map(|i| {
        let parts = r.us(1, 2);
        let rings = (0..parts).map(|_| (0..4).map(|_| (any_double(r), any_double(r))).collect()).collect();
        (i as u32 + 1, shp_record(&ShpRec { num: i as u32 + 1, rings }))
    }).collect();
    let bx = [any_double(r), any_double(r), any_double(r), any_double(r)];
    shp_file(bx, &recs)
}
/// A record that is damaged, or only looks as if it were.
fn odd_record(r: &mut Rng) -> Vec<u8> {
    let mut b = shp_record(&ShpRec { num: 1, rings: rand_rings(r, 3) });
    let (parts, points) = (u32::from_le_bytes([b[36], b[37], b[38], b[39]]), u32::from_le_bytes([b[40], b[41], b[42], b[43]]));
    let near = |r: &mut Rng, x: u32| -> u32 {
        match r.below(8) {
            0 => 0, 1 => u32::MAX, 2 => x.wrapping_add(1), 3 => x.wrapping_sub(1), 4 => 1 << r.below(32), 5 => r.next() as u32, 6 => x.wrapping_sub(r.below(6) as u32), _ => x.wrapping_add(r.below(6) as u32),
        }
    };
    match r.below(11) {
        9 => { b = vec![0; 4]; if r.chance(1, 4) { b[0] = *r.pick(&[1, 5, 255]); } } // a null shape
        10 => { let n = *r.pick(&[0, 2, 4, 6, 34, 36, 38, 40, 42, 44, 46, 48]); b.truncate(n); }
        8 => { // the parts in another order
            let mut at: Vec<[u8; 4]> = b[44..44 + 4 * parts as usize].chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
            if r.chance(1, 2) { at.reverse(); } else { let (i, k) = (r.us(0, at.len() - 1), r.us(0, at.len() - 1)); at.swap(i, k); }
            for (k, x) in at.iter().enumerate() { b[44 + 4 * k..48 + 4 * k].copy_from_slice(x); }
        }
        0 => { let v = near(r, 5); b[..4].copy_from_slice(&v.to_le_bytes()); }
        1 => { let v = near(r, parts); b[36..40].copy_from_slice(&v.to_le_bytes()); }
        2 => { let v = near(r, points); b[40..44].copy_from_slice(&v.to_le_bytes()); }
        3 | 4 => { // a part that starts elsewhere
            let k = r.us(0, parts as usize - 1);
            let at = 44 + 4 * k;
            let old = u32::from_le_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]);
            let v = if r.chance(1, 2) { near(r, old) } else { near(r, points) };
            b[at..at + 4].copy_from_slice(&v.to_le_bytes());
        }
        5 => { let n = b.len(); b.truncate(2 * r.us(0, n / 2)); }
        6 => { for _ in 0..2 * r.us(1, 12) { b.push(r.next() as u8); } }
        _ => { // consistent counts, as many bytes as they need, but bad rings
            let (p, n) = (r.us(0, 4), r.us(0, 12));
            b.truncate(36);
            b.extend_from_slice(&(p as u32).to_le_bytes());
            b.extend_from_slice(&(n as u32).to_le_bytes());
            let mut at: Vec<u32> = (0..p).map(|_| r.below(n as u64 + 3) as u32).collect();
            if r.chance(1, 2) { at.sort(); }
            if r.chance(1, 2) && p > 0 { at[0] = 0; }
            for x in at { b.extend_from_slice(&x.to_le_bytes()); }
            for _ in 0..2 * n { b.extend_from_slice(&any_double(r).to_le_bytes()); }
        }
    }
    b
}
fn odd_shp(r: &mut Rng, n: usize) -> Vec<u8> {
    let recs: Vec<(u32, Vec<u8>)> = (0..n).map(|i| {
        (i as u32 + 1, if r.chance(1, 2) { odd_record(r) } else { shp_record(&ShpRec { num: 1, rings: rand_rings(r, 2) }) })
    }).collect();
    let bx = [any_double(r), any_double(r), any_double(r), any_double(r)];
    let mut b = shp_file(bx, &recs);
    // the announced length, sometimes wrong
    if r.chance(1, 3) {
        let half = (b.len() / 2) as i64;
        let v = match r.below(4) { 0 => half + r.range(-12, 12), 1 => half + r.range(-half, half), 2 => 50, _ => r.range(0, 0xffff_ffff) }.max(0) as u32;
        b[24..28].copy_from_slice(&v.to_be_bytes());
    }
    if r.chance(1, 4) { for _ in 0..r.us(1, 60) { b.push(r.next() as u8); } }
    // another number where one is prescribed
    if r.chance(1, 8) {
        let v = *r.pick(&[9994u32, 1000, 5, 0, 1, 15, 25, 31, 9994u32.swap_bytes(), 1000u32.swap_bytes(), 5u32.swap_bytes(), 5 << 8, 5 << 16, 0x10005, 9995, 1001, 999]);
        let at = *r.pick(&[0usize, 28, 32]);
        b[at..at + 4].copy_from_slice(&(if at == 0 { v.to_be_bytes() } else { v.to_le_bytes() }));
    }
    b
}

// ------------------------------------------------------------------ dbf

pub struct Col { pub name: Vec<u8>, pub ty: u8, pub len: u8 }
fn pad(mut v: Vec<u8>, n: usize, left: bool) -> Vec<u8> {
    v.truncate(n);
    while v.len() < n { if left { v.insert(0, 32) } else { v.push(32) } }
    v
}
fn text(r: &mut Rng, enc: u8, n: usize) -> Vec<u8> {
    let mut v = vec![];
    let want = r.us(0, n);
    while v.len() < want {
        match r.below(if enc == 1 { 6 } else { 3 }) {
            0 => v.push(b'a' + r.below(26) as u8),
            1 => v.push(*r.pick(b" :;,.-0A\x00\t'\"")),
            2 if enc == 2 => v.push(128 + r.below(128) as u8),
            2 | 3 => v.push(32 + r.below(95) as u8),
            _ => {
                let c = *r.pick(&['é', 'ß', 'Ω', '€', '日', '\u{fffd}', '\u{7ff}', '\u{800}', '\u{ffff}', '😀', '\u{10000}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{80}']);
                let mut b = [0; 4];
                v.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
            }
        }
    }
    v
}
fn value(r: &mut Rng, c: &Col, enc: u8) -> Vec<u8> {
    let n = c.len as usize;
    match c.ty {
        b'C' => {
            let mut v = text(r, enc, n);
            if r.chance(1, 12) { // bytes that may not be text
                v = (0..n).map(|_| r.next() as u8).collect();
            } else if enc == 1 && r.chance(1, 8) {
                v = r.pick(&[&[0xc0u8, 0x80][..], &[0xe0, 0x80, 0x80], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xf0, 0x80, 0x80, 0x80], &[0xc3], &[0x80], &[0xe2, 0x82], &[0xf0, 0x9f, 0x98], &[0xff], &[0xf5, 0x80, 0x80, 0x80], &[0xef, 0xbb, 0xbf, 0x61]]).to_vec();
            }
            pad(v, n, r.chance(1, 10))
        }
        b'N' => {
            let s = match r.below(9) {
                0 => format!("{}", r.range(-99999, 99999)),
                1 => format!("{}.{}", r.range(-999, 999), r.below(1000)),
                2 => format!("{:0w$}", r.below(1000), w = n.max(1)),
                3 => format!("-0.{:03}", r.below(1000)),
                4 => String::new(),
                5 => r.pick(&["-", ".", "1.", ".5", "1..2", "1.2.3", "--1", "+1", "1e5", "1 2", "1-", "-.5", "0x1", "1,5", "- 1", "*****", "nan", "1.5 ", "1\n", "\t1", "\u{0}"]).to_string(),
                6 => "9".repeat(n),
                _ => format!("{}", r.below(10)),
            };
            pad(s.into_bytes(), n, !r.chance(1, 8))
        }
        b'+' | b'|' => (0..n).map(|_| if r.chance(1, 3) { *r.pick(&[0, 255, 128, 1]) } else { r.next() as u8 }).collect(),
        _ => (0..n).map(|_| r.next() as u8).collect(),
    }
}
fn field_name(r: &mut Rng, enc: u8) -> Vec<u8> {
    let n = *r.pick(&[1, 2, 3, 5, 10, 11]);
    let mut v: Vec<u8> = match r.below(7) {
        6 => r.pick(&[&b"a "[..], b" a", b"a b", b"ab   ", b"a\t", b"  ", b"a         b", b"a          ", b"_a", b"a_"]).to_vec(),
        0 if enc == 1 => "naïve€".as_bytes().to_vec(),
        0 if enc == 2 => vec![b'n', 0xe9, 0x80],
        1 => r.pick(&[&b"a"[..], b"A", b"ab", b"abc", b"name", b"NAME", b"namenamenam"]).to_vec(),
        2 => (0..n).map(|_| 33 + r.below(94) as u8).collect(),
        _ => (0..n).map(|_| b'a' + r.below(4) as u8).collect(),
    };
    v.truncate(11);
    v
}
pub fn columns(r: &mut Rng, enc: u8) -> Vec<Col> {
    let n = match r.below(6) { 0 => 0, 1 => 1, _ => r.us(1, 5) };
    (0..n).map(|_| {
        let ty = *r.pick(b"CCCCNNN++|LDF@OMBI\x00");
        let len = match ty {
            b'+' | b'|' => *r.pick(&[4, 4, 4, 4, 3, 5, 0]),
            b'C' => *r.pick(&[0, 1, 4, 8, 12, 20, 254]),
            _ => *r.pick(&[0, 1, 3, 6, 10, 18]),
        };
        Col { name: field_name(r, enc), ty, len }
    }).collect()
}
/// n records announced, the given ones written
pub fn dbf_file(r: &mut Rng, cols: &[Col], n: u32, len: u16, records: &[Vec<u8>]) -> Vec<u8> {
    let mut b = vec![0u8; 32];
    b[0] = *r.pick(&[3, 0x83, 0x30, 0]);
    b[1] = r.next() as u8;
    b[2] = r.below(13) as u8;
    b[3] = r.below(32) as u8;
    b[4..8].copy_from_slice(&n.to_le_bytes());
    let tail = if r.chance(3, 4) { vec![13u8] } else if r.chance(1, 2) { vec![] } else { let mut t = vec![13u8]; t.resize(r.us(1, 31), 0); t };
    let head = (32 + 32 * cols.len() + tail.len()) as u16;
    b[8..10].copy_from_slice(&head.to_le_bytes());
    b[10..12].copy_from_slice(&len.to_le_bytes());
    for c in cols {
        let mut d = vec![0u8; 32];
        d[..c.name.len()].copy_from_slice(&c.name);
        if c.name.len() < 10 && r.chance(1, 4) { for k in c.name.len() + 1..11 { d[k] = b'z'; } } // after the NUL
        d[11] = c.ty;
        for k in 12..32 { d[k] = r.next() as u8; }
        d[16] = c.len;
        b.extend_from_slice(&d);
    }
    b.extend_from_slice(&tail);
    for x in records { b.extend_from_slice(x); }
    if r.chance(1, 2) { b.push(0x1a); }
    b
}
fn rows(r: &mut Rng, cols: &[Col], enc: u8, n: usize) -> Vec<Vec<u8>> {
    (0..n).map(|_| {
        let mut v = vec![if r.chance(1, 12) { *r.pick(b"\x1a\x0d\x00\x01d\xff") } else { *r.pick(b"   *") }];
        for c in cols { v.extend(value(r, c, enc)); }
        v
    }).collect()
}
pub fn valid_dbf(r: &mut Rng, cols: &[Col], enc: u8, n: usize) -> Vec<u8> {
    let rs = rows(r, cols, enc, n);
    let len = 1 + cols.iter().map(|c| c.len as usize).sum::<usize>();
    dbf_file(r, cols, n as u32, len as u16, &rs)
}
/// Queries: the fields' names, some twice, and others
fn queries(r: &mut Rng, cols: &[Col], enc: u8) -> Vec<String> {
    let mut q: Vec<String> = vec![];
    for c in cols {
        if let Ok(s) = encoding_of(enc).decode(&c.name, encoding::DecoderTrap::Strict) { q.push(s); }
    }
    for k in 0..q.len() {
        let s = q[k].clone();
        match r.below(6) {
            5 => q.push(s.trim().to_string()),
            0 => q.push(s.to_uppercase()),
            1 => q.push(s.to_lowercase()),
            2 => { let mut s = s; s.push('x'); q.push(s) }
            3 => { let mut s = s; s.pop(); q.push(s) }
            _ => {}
        }
    }
    if r.chance(1, 3) { q.push(String::new()); }
    q.truncate(8);
    q
}
fn encoding_of(e: u8) -> encoding::EncodingRef { match e { 0 => encoding::all::ASCII, 1 => encoding::all::UTF_8, _ => encoding::all::WINDOWS_1252 } }

// ------------------------------------------------------------------ sessions

fn chunks(r: &mut Rng) -> Vec<usize> {
    match r.below(5) {
        0 => vec![],
        1 => vec![1],
        2 => vec![r.us(1, 20)],
        _ => { let mut v: Vec<usize> = (0..r.us(1, 6)).map(|_| if r.chance(1, 4) { 0 } else { r.us(1, 40) }).collect(); v.push(r.us(1, 9)); v }
    }
}
fn session(kind: Kind, shp: Option<Given>, dbf: Option<Given>, enc: u8, names: Vec<String>) -> Session {
    Session { kind, shp, dbf, enc, by_name: None, names, show: false, max: 30 }
}
fn given(r: &mut Rng, f: usize) -> Given { Given { chunks: chunks(r), ..Given::whole(f) } }

/// The bytes that say how a polygon file is laid out.
fn shp_layout(b: &[u8]) -> Vec<usize> {
    let mut v: Vec<usize> = (0..4).chain(24..36).collect();
    let mut at = 100;
    while at + 8 <= b.len() {
        v.extend(at + 4..at + 12);
        let n = u32::from_be_bytes([b[at + 4], b[at + 5], b[at + 6], b[at + 7]]) as usize * 2;
        if at + 52 <= b.len() && n >= 44 {
            let parts = u32::from_le_bytes([b[at + 44], b[at + 45], b[at + 46], b[at + 47]]) as usize;
            v.extend(at + 44..(at + 52 + 4 * parts.min(8)).min(b.len()));
        }
        at = at.saturating_add(8 + n);
    }
    v.retain(|at| *at < b.len());
    v
}
fn hit(r: &mut Rng, b: &[u8], at: usize) -> u8 {
    match r.below(7) { 0 => 0, 1 => 255, 2 => b[at].wrapping_add(1), 3 => b[at].wrapping_sub(1), 4 => b[at] ^ (1 << r.below(8)), 5 => r.below(12) as u8, _ => r.next() as u8 }
}
fn patches(r: &mut Rng, b: &[u8], layout: &[usize]) -> Vec<(usize, u8)> {
    (0..r.us(1, 3)).map(|_| {
        let at = if r.chance(4, 5) { *r.pick(layout) } else { r.us(0, b.len() - 1) };
        (at, hit(r, b, at))
    }).collect()
}
fn dbf_layout(b: &[u8]) -> Vec<usize> {
    let mut v: Vec<usize> = (1..12).collect();
    let head = (b[8] as usize + 256 * b[9] as usize).min(b.len());
    let mut at = 32;
    while at + 32 <= head { v.extend(at..at + 12); v.push(at + 16); at += 32; }
    v.retain(|at| *at < b.len());
    v
}
/// A stream that is cut, fails, or has bytes replaced
fn damage(r: &mut Rng, f: usize, b: &[u8], layout: &[usize]) -> Given {
    let mut g = given(r, f);
    let n = b.len() as i64;
    match r.below(6) {
        0 => g.cut = r.range(0, n),
        1 => { g.fail = r.range(0, n + 1); g.once = r.chance(1, 2); }
        2 => { g.cut = r.range(0, n); g.patch = patches(r, b, layout); }
        _ => g.patch = patches(r, b, layout),
    }
    g
}

// ------------------------------------------------------------------ quantizing

fn next_up(x: f64, k: i64) -> f64 {
    // k steps along the doubles
    let key = |b: u64| if b >> 63 == 1 { -((b & !(1 << 63)) as i128) } else { b as i128 };
    let v = key(x.to_bits()) + k as i128;
    f64::from_bits(if v < 0 { (-v) as u64 | 1 << 63 } else { v as u64 })
}
fn geo_box(r: &mut Rng) -> [f64; 4] {
    let span = |r: &mut Rng| -> (f64, f64) {
        let (a, w) = match r.below(9) {
            0 => (0.0, r.range(1, 1000) as f64),
            1 => (r.range(-180_000_000, 0) as f64 / 1e6, r.range(1, 180_000_000) as f64 / 1e6),
            2 => (r.range(7_000_000, 8_000_000) as f64 + r.below(1000) as f64 / 1000.0, r.range(1, 100_000) as f64 / 7.0),
            3 => (r.range(-1000, 1000) as f64, 4294967295.0),
            4 => { let a = r.range(-1000, 1000) as f64 / 3.0; (a, next_up(a, r.range(1, 9)) - a) }
            5 => (r.range(-9, 9) as f64 * 1e300, 1e301 * r.range(1, 9) as f64),
            6 => (r.range(-9, 9) as f64 * 1e-310, 1e-308 * r.range(1, 9) as f64),
            7 => (-1.0, 2.0),
            _ => (f64::from_bits(0x3f00_0000_0000_0000 + (r.next() >> 10)) * if r.chance(1, 2) { -1.0 } else { 1.0 }, 1.0 + r.below(1000) as f64),
        };
        let b = a + w;
        if b > a { (a, b) } else { (a, next_up(a, 3)) }
    };
    let (x0, x1) = span(r);
    let (y0, y1) = if r.chance(1, 2) { (x0, x1) } else { span(r) };
    [x0, y0, x1, y1]
}
fn geo_coord(r: &mut Rng, a: f64, b: f64, old: &[f64]) -> f64 {
    let w = b - a;
    match r.below(10) {
        0 => a,
        1 => b,
        2 if !old.is_empty() => *r.pick(old),
        3 if !old.is_empty() => { let x = *r.pick(old); next_up(x, r.range(-3, 3)) }
        4 => { let n = r.range(2, 16); a + w * r.range(0, n) as f64 / n as f64 }
        5 => next_up(a, r.range(-4, 4)),
        6 => next_up(b, r.range(-4, 4)),
        7 if r.chance(1, 2) => { let k = r.range(-3, 3) as f64; a + w * k }
        7 => a + w / 4294967295.0 * r.below(1 << 32) as f64,
        8 => a + w * (r.below(1 << 20) as f64 / (1u64 << 20) as f64),
        _ => a + w * (r.next() as f64 / u64::MAX as f64),
    }
}
fn geo_rings(r: &mut Rng, bx: &[f64; 4], xs: &mut Vec<f64>, ys: &mut Vec<f64>) -> Vec<Vec<Bits>> {
    let parts = if r.chance(1, 3) { 1 } else { r.us(1, 4) };
    (0..parts).map(|_| {
        let mut pts: Vec<(f64, f64)> = if r.chance(1, 2) {
            let (x0, x1) = (geo_coord(r, bx[0], bx[2], xs), geo_coord(r, bx[0], bx[2], xs));
            let (y0, y1) = (geo_coord(r, bx[1], bx[3], ys), geo_coord(r, bx[1], bx[3], ys));
            vec![(x0, y0), (x0, y1), (x1, y1), (x1, y0)]
        } else {
            (0..r.us(3, 5)).map(|_| (geo_coord(r, bx[0], bx[2], xs), geo_coord(r, bx[1], bx[3], ys))).collect()
        };
        if r.chance(1, 2) { pts.reverse(); }
        if r.chance(1, 12) { let p = pts[0]; for q in pts.iter_mut() { *q = p; } }
        if r.chance(1, 30) { pts[0].0 = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, -f64::MAX]); }
        let f = pts[0];
        pts.push(f);
        for p in &pts { if p.0.is_finite() { xs.push(p.0); } if p.1.is_finite() { ys.push(p.1); } }
        pts.iter().map(|p| (p.0.to_bits(), p.1.to_bits())).collect()
    }).collect()
}

/// Files and sessions of a family.
pub fn sessions(r: &mut Rng, fam: &str) -> (Vec<Vec<u8>>, Vec<Session>) {
    let enc = r.below(3) as u8;
    match fam {
        // a valid polygon file, read through streams of several kinds
        "rshp" => {
            let n = match r.below(6) { 0 => 0, 1 => 1, _ => r.us(1, 5) };
            let b = valid_shp(r, n);
            let mut v = vec![];
            for _ in 0..3 { let mut g = given(r, 1); if r.chance(1, 6) { g.fail = b.len() as i64; } v.push(session(Kind::Shp, Some(g), None, 0, vec![])); }
            if r.chance(1, 3) { let mut s = session(Kind::Shp, Some(Given::whole(1)), None, 0, vec![]); s.by_name = Some(("x.shp".into(), 0)); v.push(s); }
            (vec![b], v)
        }
        // a big one
        "rbig" => {
            let n = r.us(1, 3);
            let recs: Vec<(u32, Vec<u8>)> = (0..n).map(|i| {
                let parts = r.us(1, 5);
                let rings = (0..parts).map(|_| (0..r.us(4, 140)).map(|_| (any_double(r), any_double(r))).collect()).collect();
                (i as u32 + 1, shp_record(&ShpRec { num: 0, rings }))
            }).collect();
            let bx = [any_double(r), any_double(r), any_double(r), any_double(r)];
            let b = shp_file(bx, &recs);
            let mut s = session(Kind::Shp, Some(Given::whole(1)), None, 0, vec![]);
            s.by_name = Some(("big.shp".into(), 0));
            let g = Given { chunks: vec![r.us(1, 500), 0, r.us(1, 5000)], ..Given::whole(1) };
            (vec![b], vec![s, session(Kind::Shp, Some(g), None, 0, vec![])])
        }
        // many records, or many parts
        "rlshp" => {
            let n = if r.chance(1, 2) { r.us(200, 700) } else { r.us(1, 3) };
            let recs: Vec<(u32, Vec<u8>)> = (0..n).map(|i| {
                let parts = if n > 3 { if r.chance(1, 50) { r.us(2, 20) } else { 1 } } else { r.us(30, 400) };
                let rings = (0..parts).map(|_| (0..if r.chance(1, 9) { r.us(4, 9) } else { 4 }).map(|_| (any_double(r), any_double(r))).collect()).collect();
                (rec_num(r, i), shp_record(&ShpRec { num: 0, rings }))
            }).collect();
            let bx = [any_double(r), any_double(r), any_double(r), any_double(r)];
            let b = shp_file(bx, &recs);
            let mut s = session(Kind::Shp, Some(given(r, 1)), None, 0, vec![]);
            s.max = n + 5;
            (vec![b], vec![s])
        }
        // one ring of more than 2^16 points
        "rhshp" => {
            let ring = (0..66_000 + r.us(0, 3000)).map(|k| ((k as f64).to_bits(), any_double(r))).collect();
            let small = (0..4).map(|_| (any_double(r), any_double(r))).collect();
            let recs = vec![(1, shp_record(&ShpRec { num: 0, rings: vec![ring, small] }))];
            let b = shp_file([0, 0, 0, 0], &recs);
            (vec![b], vec![session(Kind::Shp, Some(Given::whole(1)), None, 0, vec![])])
        }
        // more than 2^16 rings
        "rpshp" => {
            let rings = (0..65_530 + r.us(6, 30)).map(|k| (0..4).map(|q| (((k * 4 + q) as f64).to_bits(), k as u64)).collect()).collect();
            let b = shp_file([0, 0, 0, 0], &[(1, shp_record(&ShpRec { num: 0, rings }))]);
            (vec![b], vec![session(Kind::Shp, Some(Given::whole(1)), None, 0, vec![])])
        }
        // many records, or many or wide fields
        "rldbf" => {
            let (cols, n) = match r.below(3) {
                0 => { let mut c = columns(r, enc); for x in c.iter_mut() { x.len = x.len.min(8); } (c, r.us(200, 1500)) }
                1 => { // up to 1,000 fields
                    let k = r.us(100, 1000);
                    ((0..k).map(|_| { let ty = *r.pick(b"CCN+"); Col { name: field_name(r, enc), ty, len: if ty == b'+' { 4 } else { r.below(7) as u8 } } }).collect(), r.us(1, 2))
                }
                _ => { // records of up to 65,000 bytes
                    let k = r.us(30, 254);
                    ((0..k).map(|_| { let ty = *r.pick(b"CCCN+"); Col { name: field_name(r, enc), ty, len: if ty == b'+' { 4 } else { r.us(200, 255) as u8 } } }).collect(), r.us(1, 2))
                }
            };
            let b = valid_dbf(r, &cols, enc, n);
            let q = queries(r, &cols, enc);
            let g = Given { chunks: vec![r.us(1, 9000)], ..Given::whole(1) };
            let mut s = session(Kind::Dbf, None, Some(g), enc, q);
            s.max = n + 5;
            (vec![b], vec![s])
        }
        // more than 2^16 records
        "rhdbf" => {
            let n = 65_530 + r.us(0, 40);
            let cols = vec![Col { name: b"a".to_vec(), ty: b'C', len: 2 }];
            let rs: Vec<Vec<u8>> = (0..n).map(|k| vec![b' ', b'a' + (k % 23) as u8, b'A' + (k % 19) as u8]).collect();
            let b = dbf_file(r, &cols, n as u32, 3, &rs);
            let mut s = session(Kind::Dbf, None, Some(Given::whole(1)), enc, vec![]);
            s.max = n + 5;
            (vec![b], vec![s])
        }
        "rljoin" => {
            let mut cols = columns(r, enc);
            for x in cols.iter_mut() { x.len = x.len.min(8); }
            let n = r.us(200, 500);
            let m = if r.chance(1, 2) { n } else { r.us(200, 500) };
            let a = small_shp(r, n);
            let b = valid_dbf(r, &cols, enc, m);
            let q = queries(r, &cols, enc);
            let mut s = session(Kind::Join, Some(given(r, 1)), Some(given(r, 2)), enc, q);
            s.max = n.max(m) + 5;
            (vec![a, b], vec![s])
        }
        "rdbf" => {
            let cols = columns(r, enc);
            let n = match r.below(6) { 0 => 0, _ => r.us(1, 5) };
            let b = valid_dbf(r, &cols, enc, n);
            let mut v = vec![];
            for k in 0..3 {
                let e = if k == 0 { enc } else { r.below(3) as u8 };
                let q = queries(r, &cols, e);
                let mut g = given(r, 1);
                if r.chance(1, 6) { g.fail = b.len() as i64; }
                v.push(session(Kind::Dbf, None, Some(g), e, q));
            }
            if r.chance(1, 3) {
                let q = queries(r, &cols, enc);
                let mut s = session(Kind::Dbf, None, Some(Given::whole(1)), enc, q);
                s.by_name = Some(("x.dbf".into(), r.below(2) as u8));
                v.push(s);
            }
            (vec![b], v)
        }
        // pairs with any number of records on either side, some damaged
        "rjoin" | "rshow" => {
            let long = fam == "rshow" && r.chance(1, 40);
            let mut cols = columns(r, enc);
            if long { for _ in 0..r.us(3, 25) { cols.extend(columns(r, enc).into_iter().filter(|c| b"CN+".contains(&c.ty))); } }
            let n = if long { 1 } else { r.us(0, 4) };
            let m = if long { 1 } else if r.chance(1, 2) { n } else { r.us(0, 5) };
            let a = if long {
                let k = r.us(20, 120);
                let mut rings = rand_rings(r, 20);
                rings.push((0..k).map(|_| (any_double(r), any_double(r))).collect());
                let bx = [any_double(r), any_double(r), any_double(r), any_double(r)];
                shp_file(bx, &[(1, shp_record(&ShpRec { num: 1, rings }))])
            } else if r.chance(1, 2) || fam == "rshow" { valid_shp(r, n) } else { odd_shp(r, n) };
            let mut b = valid_dbf(r, &cols, enc, m);
            if r.chance(1, 6) { // more announced than there are
                let k = (m + r.us(1, 3)) as u32;
                b[4..8].copy_from_slice(&k.to_le_bytes());
            }
            let mut v = vec![];
            for k in 0..2 {
                let q = queries(r, &cols, enc);
                let mut s = session(Kind::Join, Some(given(r, 1)), Some(given(r, 2)), enc, q);
                s.show = fam == "rshow";
                if fam == "rjoin" && k == 1 && r.chance(1, 2) {
                    if r.chance(1, 2) { s.shp = Some(damage(r, 1, &a, &shp_layout(&a))); }
                    if r.chance(1, 2) { s.dbf = Some(damage(r, 2, &b, &dbf_layout(&b))); }
                }
                v.push(s);
            }
            (vec![a, b], v)
        }
        // by file name
        "ropen" => {
            let cols = columns(r, enc);
            let n = r.us(0, 3);
            let a = valid_shp(r, n);
            let m = if r.chance(3, 4) { n } else { r.us(0, 3) };
            let b = valid_dbf(r, &cols, enc, m);
            let mut v = vec![];
            for _ in 0..2 {
                let q = queries(r, &cols, enc);
                let e = if r.chance(3, 4) { enc } else { r.below(3) as u8 };
                let kind = if r.chance(1, 6) { Kind::Geo } else { Kind::Join };
                let mut s = session(kind, Some(Given::whole(1)), Some(Given::whole(2)), e, q);
                let name = *r.pick(&["simple.shp", "a.b.shp", "SHOUT.SHP", "noext", "with space.shp", "ünï.shp", "x.dbf.shp", "shp.shp", "trailing..shp", ".hidden.shp", "a.shp.shp"]);
                s.by_name = Some((name.into(), r.below(2) as u8));
                match r.below(8) {
                    0 => s.shp = Some(Given { f: 0, ..Given::whole(1) }),
                    1 => s.dbf = Some(Given { f: 0, ..Given::whole(1) }),
                    2 => { let mut g = damage(r, 1, &a, &shp_layout(&a)); g.fail = -1; s.shp = Some(g); }
                    3 => { let mut g = damage(r, 2, &b, &dbf_layout(&b)); g.fail = -1; s.dbf = Some(g); }
                    _ => {}
                }
                v.push(s);
            }
            (vec![a, b], v)
        }
        // every truncation, and a failure after every byte
        "rcut" => {
            let kind = r.below(3);
            let a = { let n = r.us(0, 2); small_shp(r, n) };
            let mut cols = columns(r, enc);
            cols.truncate(2);
            for c in cols.iter_mut() { c.len = c.len.min(12); }
            let b = { let n = r.us(0, 2); valid_dbf(r, &cols, enc, n) };
            let mut v = vec![];
            let len = match kind { 0 => a.len(), 1 => b.len(), _ => a.len() + b.len() } as i64;
            for k in 0..=len {
                let mut g = Given::whole(1);
                let fail = r.chance(1, 3);
                let mut q = Given::whole(2);
                let t = if kind == 1 || (kind == 2 && k > a.len() as i64) { &mut q } else { &mut g };
                let k = if kind == 2 && k > a.len() as i64 { k - a.len() as i64 } else { k };
                if fail { t.fail = k; t.once = r.chance(1, 2); } else { t.cut = k; }
                v.push(match kind { 0 => session(Kind::Shp, Some(g), None, 0, vec![]), 1 => session(Kind::Dbf, None, Some(q), enc, vec![]), _ => session(Kind::Join, Some(g), Some(q), enc, vec![]) });
            }
            (vec![a, b], v)
        }
        // every byte that matters replaced
        "rflip" => {
            let kind = r.below(2);
            let a = { let n = r.us(1, 2); small_shp(r, n) };
            let mut cols = columns(r, enc);
            cols.truncate(2);
            for c in cols.iter_mut() { c.len = c.len.min(12); }
            let b = { let n = r.us(1, 2); valid_dbf(r, &cols, enc, n) };
            let mut v = vec![];
            let (bytes, f, layout) = if kind == 0 { (&a, 1, shp_layout(&a)) } else { (&b, 2, dbf_layout(&b)) };
            for at in layout {
                for _ in 0..2 {
                    let mut g = Given::whole(f);
                    g.patch = vec![(at, hit(r, bytes, at))];
                    v.push(if kind == 0 { session(Kind::Shp, Some(g), None, 0, vec![]) } else { session(Kind::Dbf, None, Some(g), enc, vec![]) });
                }
            }
            (vec![a, b], v)
        }
        // damaged records and lengths, damaged headers
        "rbad" => {
            let n = r.us(0, 4);
            if r.chance(1, 2) {
                let a = odd_shp(r, n);
                let mut v = vec![session(Kind::Shp, Some(given(r, 1)), None, 0, vec![])];
                for _ in 0..3 { let g = damage(r, 1, &a, &shp_layout(&a)); v.push(session(Kind::Shp, Some(g), None, 0, vec![])); }
                (vec![a], v)
            } else {
                let cols = columns(r, enc);
                let mut b = valid_dbf(r, &cols, enc, n);
                match r.below(4) {
                    0 => { let k = r.next() as u16 % 300; b[10..12].copy_from_slice(&k.to_le_bytes()); }
                    1 => { let k = r.next() as u16 % 300; b[8..10].copy_from_slice(&k.to_le_bytes()); }
                    2 => { let k = r.next() as u32; b[4..8].copy_from_slice(&k.to_le_bytes()); }
                    _ => {}
                }
                let mut v = vec![session(Kind::Dbf, None, Some(given(r, 1)), enc, queries(r, &cols, enc))];
                for _ in 0..3 { let g = damage(r, 1, &b, &dbf_layout(&b)); v.push(session(Kind::Dbf, None, Some(g), enc, queries(r, &cols, enc))); }
                (vec![b], v)
            }
        }
        // any bytes at all
        "rjunk" => {
            let n = r.us(0, 200);
            let mut a: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            if r.chance(2, 3) && a.len() >= 36 {
                a[..4].copy_from_slice(&9994u32.to_be_bytes());
                a[28..32].copy_from_slice(&1000u32.to_le_bytes());
                a[32..36].copy_from_slice(&5u32.to_le_bytes());
                if r.chance(1, 2) { for at in (100..a.len()).step_by(8) { for k in at..(at + 7).min(a.len()) { a[k] = 0; } } }
            }
            let n = r.us(0, 150);
            let mut b: Vec<u8> = (0..n).map(|_| if r.chance(1, 2) { r.below(32) as u8 } else { r.next() as u8 }).collect();
            if r.chance(2, 3) && b.len() > 12 { b[2] %= 13; b[3] %= 32; b[9] = 0; if r.chance(1, 2) { b[11] = 0; } }
            let v = vec![session(Kind::Shp, Some(given(r, 1)), None, 0, vec![]), session(Kind::Dbf, None, Some(given(r, 2)), enc, vec![]),
                         session(Kind::Join, Some(given(r, 1)), Some(given(r, 2)), enc, vec![])];
            (vec![a, b], v)
        }
        // integer geometry
        "rgeo" => {
            let bx = geo_box(r);
            let (mut xs, mut ys) = (vec![], vec![]);
            let n = r.us(1, 3);
            let mut recs: Vec<(u32, Vec<u8>)> = (0..n).map(|i| (i as u32 + 1, shp_record(&ShpRec { num: 0, rings: geo_rings(r, &bx, &mut xs, &mut ys) }))).collect();
            if r.chance(1, 5) { let k = r.us(0, n - 1); recs[k].1 = odd_record(r); }
            let mut bits = [bx[0].to_bits(), bx[1].to_bits(), bx[2].to_bits(), bx[3].to_bits()];
            if r.chance(1, 20) { bits.swap(0, 2); }
            let a = shp_file(bits, &recs);
            let cols = columns(r, enc);
            let m = if r.chance(1, 5) { r.us(0, 4) } else { n };
            let b = valid_dbf(r, &cols, enc, m);
            let q = queries(r, &cols, enc);
            (vec![a, b], vec![session(Kind::Geo, Some(given(r, 1)), Some(given(r, 2)), enc, q)])
        }
        _ => panic!("unknown family {}", fam),
    }
}
