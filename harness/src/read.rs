//! Sessions with the shapefile readers: opening them on (possibly damaged)
//! files and stepping through them, recording everything they return.
use crate::alloc;
use crate::plan::guarded;
use serde_json::{json, Value};
use std::io::{self, Read};
use std::cell::Cell;
use std::path::PathBuf;
use encoding::EncodingRef;
use topogeo::geo::Ring;
use topogeo::read::shapefile::{self, dbf, shp, DbfField, DbfRecord, ShapefileGeoIterator, ShapefileReader};

/// A file as a reader sees it: file number f (from 1; 0 if it is missing),
/// cut short, with bytes replaced, on a stream that splits its reads
/// (0: an interrupted one) and fails after some bytes.
#[derive(Clone, Debug)]
pub struct Given { pub f: usize, pub cut: i64, pub patch: Vec<(usize, u8)>, pub fail: i64, pub once: bool, pub chunks: Vec<usize> }
impl Given {
    pub fn whole(f: usize) -> Given { Given { f, cut: -1, patch: vec![], fail: -1, once: false, chunks: vec![] } }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Kind { Shp, Dbf, Join, Geo }
/// How to open: on streams, or by file name (0), or by file name in a way that
/// names the encoding (1).
#[derive(Clone, Debug)]
pub struct Session {
    pub kind: Kind, pub shp: Option<Given>, pub dbf: Option<Given>, pub enc: u8,
    pub by_name: Option<(String, u8)>, pub names: Vec<String>, pub show: bool, pub max: usize,
}
pub const ENCS: [&str; 3] = ["ascii", "utf8", "1252"];

impl Given {
    fn json(&self) -> Value { json!({"f": self.f, "cut": self.cut, "patch": self.patch.iter().map(|p| json!([p.0, p.1])).collect::<Vec<_>>(), "fail": self.fail, "once": self.once, "chunks": self.chunks}) }
    fn read(v: &Value) -> Given {
        let list = |k: &str| v[k].as_array().cloned().unwrap_or_default();
        Given {
            f: v["f"].as_u64().unwrap() as usize, cut: v["cut"].as_i64().unwrap(), fail: v["fail"].as_i64().unwrap(),
            once: v["once"].as_bool().unwrap_or(false),
            patch: list("patch").iter().map(|p| (p[0].as_u64().unwrap() as usize, p[1].as_u64().unwrap() as u8)).collect(),
            chunks: list("chunks").iter().map(|c| c.as_u64().unwrap() as usize).collect(),
        }
    }
    fn bytes(&self, files: &[Vec<u8>]) -> Vec<u8> {
        let mut b = files[self.f - 1].clone();
        if self.cut >= 0 { b.truncate(self.cut as usize); }
        for p in &self.patch { if p.0 < b.len() { b[p.0] = p.1; } }
        b
    }
    fn stream(&self, files: &[Vec<u8>], id: usize) -> Stream {
        TOOK.with(|t| t[id].set(0));
        Stream { id, b: self.bytes(files), pos: 0, fail: self.fail, once: self.once, chunks: self.chunks.clone(), k: 0 }
    }
}
fn cps(s: &str) -> Value { Value::Array(s.chars().map(|c| json!(c as u32)).collect()) }
fn from_cps(v: &Value) -> String { v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect() }

impl Session {
    pub fn json(&self) -> Value {
        let mut v = json!({"op": "read", "kind": match self.kind { Kind::Shp => "shp", Kind::Dbf => "dbf", Kind::Join => "join", Kind::Geo => "geo" },
            "enc": ENCS[self.enc as usize], "names": self.names.iter().map(|n| cps(n)).collect::<Vec<_>>(), "show": self.show, "max": self.max});
        if let Some(s) = &self.shp { v["shp"] = s.json(); }
        if let Some(s) = &self.dbf { v["dbf"] = s.json(); }
        if let Some((n, h)) = &self.by_name { v["path"] = json!(n); v["how"] = json!(h); }
        v
    }
    pub fn read(v: &Value) -> Session {
        let given = |k: &str| v.get(k).map(|g| Given::read(g));
        Session {
            kind: match v["kind"].as_str().unwrap() { "shp" => Kind::Shp, "dbf" => Kind::Dbf, "join" => Kind::Join, _ => Kind::Geo },
            shp: given("shp"), dbf: given("dbf"), enc: ENCS.iter().position(|e| *e == v["enc"].as_str().unwrap()).unwrap() as u8,
            by_name: v.get("path").map(|p| (p.as_str().unwrap().to_string(), v["how"].as_u64().unwrap() as u8)),
            names: v["names"].as_array().unwrap().iter().map(from_cps).collect(),
            show: v["show"].as_bool().unwrap_or(false), max: v["max"].as_u64().unwrap_or(40) as usize,
        }
    }
}

// How many bytes the polygon and the attribute stream in use have given away; -1 if there is none.
thread_local! { static TOOK: [Cell<i64>; 2] = const { [Cell::new(-1), Cell::new(-1)] }; }

#[derive(Debug)]
struct Stream { id: usize, b: Vec<u8>, pos: usize, fail: i64, once: bool, chunks: Vec<usize>, k: usize }
impl Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() { return Ok(0); }
        if self.fail >= 0 && self.pos as i64 == self.fail {
            if self.once { self.fail = -1; }
            return Err(io::Error::new(io::ErrorKind::Other, "the stream failed"));
        }
        let mut n = buf.len().min(self.b.len() - self.pos);
        if self.fail >= 0 && (self.pos as i64) < self.fail { n = n.min(self.fail as usize - self.pos); }
        if !self.chunks.is_empty() {
            let c = self.chunks[self.k % self.chunks.len()];
            self.k += 1;
            if c == 0 { return Err(io::Error::from(io::ErrorKind::Interrupted)); }
            n = n.min(c);
        }
        buf[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        TOOK.with(|t| t[self.id].set(self.pos as i64));
        Ok(n)
    }
}

fn enc(e: u8) -> EncodingRef {
    match e { 0 => encoding::all::ASCII, 1 => encoding::all::UTF_8, _ => encoding::all::WINDOWS_1252 }
}

fn f64s(x: f64) -> Vec<u8> { x.to_bits().to_le_bytes().to_vec() }
fn bbox(b: &shp::ShpBoundingBox) -> Value { json!([f64s(b.0), f64s(b.1), f64s(b.2), f64s(b.3)]) }
fn rings(rs: &[shp::ShpPolygonRing]) -> Value {
    Value::Array(rs.iter().map(|r| Value::Array(r.0.iter().map(|p| json!([f64s(p.0), f64s(p.1)].concat())).collect())).collect())
}
fn qrings(rs: &[Ring]) -> Value {
    Value::Array(rs.iter().map(|r| Value::Array(r.points().iter().map(|p| json!([p.0.to_le_bytes(), p.1.to_le_bytes()])).collect())).collect())
}
fn io_kind(e: &io::Error) -> &'static str {
    match e.kind() { io::ErrorKind::UnexpectedEof => "end", io::ErrorKind::NotFound => "missing", io::ErrorKind::Other => "failed", _ => "?" }
}
/// What an error says of itself.
trait Tell { fn tell(&self) -> Value; }
#[allow(deprecated)]
fn told(f: &str, w: &str, kind: &str, inner: String, outer: &dyn std::error::Error, desc: &str) -> Value {
    json!({"f": f, "w": w, "kind": kind, "inner": inner, "text": format!("{}", outer), "desc": outer.description() == desc, "cause": outer.cause().is_some()})
}
#[allow(deprecated)]
fn tell_shp(e: &shp::ShpError, outer: &dyn std::error::Error) -> Value {
    use std::error::Error;
    match e {
        shp::ShpError::IOError(i) => told("shp", "io", io_kind(i), format!("{}", i), outer, i.description()),
        shp::ShpError::ParseError(s) => told("shp", "parse", "", s.clone(), outer, s),
    }
}
#[allow(deprecated)]
fn tell_dbf(e: &dbf::DbfError, outer: &dyn std::error::Error) -> Value {
    use std::error::Error;
    match e {
        dbf::DbfError::IOError(i) => told("dbf", "io", io_kind(i), format!("{}", i), outer, i.description()),
        dbf::DbfError::ParseError(s) => told("dbf", "parse", "", s.clone(), outer, s),
    }
}
impl Tell for shp::ShpError { fn tell(&self) -> Value { tell_shp(self, self) } }
impl Tell for dbf::DbfError { fn tell(&self) -> Value { tell_dbf(self, self) } }
impl Tell for shapefile::ShapefileError {
    fn tell(&self) -> Value {
        match self {
            shapefile::ShapefileError::ShpError(e) => tell_shp(e, self),
            shapefile::ShapefileError::DbfError(e) => tell_dbf(e, self),
            shapefile::ShapefileError::JoinError(s) => told("join", "join", "", s.clone(), self, s),
        }
    }
}
fn val(f: &DbfField, r: &DbfRecord) -> Value {
    match f.read_string(r) { Ok(s) => json!({"k": "ok", "v": cps(&s)}), Err(_) => json!({"k": "err"}) }
}
struct Fields { all: Vec<DbfField>, named: Vec<Option<DbfField>> }
impl Fields {
    fn vals(&self, v: &mut Value, r: &DbfRecord) {
        v["bytes"] = json!(&r.bytes[..]);
        v["perr"] = json!(self.all.iter().all(|f| match f.read_string(r) { Err(dbf::DbfError::IOError(_)) => false, _ => true }));
        v["vals"] = Value::Array(self.all.iter().map(|f| val(f, r)).collect());
        v["named"] = Value::Array(self.named.iter().map(|f| f.as_ref().map_or(json!({"k": "none"}), |f| val(f, r))).collect());
    }
    fn header(&self, v: &mut Value) {
        v["fields"] = Value::Array(self.all.iter().map(|f| cps(&f.name)).collect());
        v["found"] = Value::Array(self.named.iter().map(|f| json!(f.is_some())).collect());
    }
}

/// Calls f; adds its outcome, or its panic, and the memory it used.
fn step<T>(mut v: Value, out: &mut Vec<Value>, f: impl FnOnce() -> T, show: impl FnOnce(&T, &mut Value)) -> Option<T> {
    let base = alloc::reset_peak();
    let r = guarded(f);
    let mem = alloc::peak().saturating_sub(base).min(1 << 30);
    let r = r.and_then(|t| guarded(|| { let mut w = json!({}); show(&t, &mut w); w }).map(|w| (t, w)));
    v["mem"] = json!(mem);
    v["took"] = TOOK.with(|t| json!([t[0].get(), t[1].get()]));
    match r {
        Ok((t, w)) => { v["out"] = w; out.push(v); Some(t) }
        Err(m) => { v["panic"] = json!(m); out.push(v); None }
    }
}

/// Numbers from here up are not told apart (Huge in the specification).
const HUGE: usize = 1 << 29;

/// Steps through an iterator to its end and beyond.
/// After each step, far says how far the iterator says it is.
fn walk<T, E: Tell, I: Iterator<Item = Result<T, E>>>(s: &Session, out: &mut Vec<Value>, it: &mut I, show: impl Fn(&T, &mut Value), far: impl Fn(&I) -> Option<usize>) {
    let mut ended = 0;
    for _ in 0..s.max {
        let got = step(json!({"op": "next"}), out, || it.next(), |x, v| match x {
            None => { v["k"] = json!("none"); }
            Some(Err(e)) => { v["k"] = json!("err"); v["e"] = e.tell(); }
            Some(Ok(t)) => { v["k"] = json!("rec"); show(t, v); }
        });
        if let (Some(n), Some(Some(v))) = (far(it), got.is_some().then(|| out.last_mut())) { v["far"] = json!(n.min(HUGE)); }
        match got {
            None => return,
            Some(None) => { ended += 1; if ended == 3 { return; } }
            _ => {}
        }
    }
}

fn run_shp<R: Read>(s: &Session, out: &mut Vec<Value>, open: impl FnOnce() -> Result<shp::ShpReader<R>, shp::ShpError>) {
    let r = step(s.json(), out, open, |r, v| match r {
        Err(e) => { v["k"] = json!("err"); v["e"] = e.tell(); }
        Ok(r) => {
            v["k"] = json!("ok");
            v["box"] = bbox(&r.header.bounding_box);
            v["half"] = json!(((r.header.file_n_bytes / 2) as u32).to_be_bytes());
            v["far"] = json!(r.n_bytes_already_read.min(HUGE));
        }
    });
    if let Some(Ok(mut r)) = r {
        walk(s, out, &mut r, |p, v| { v["num"] = json!(p.record_number.to_be_bytes()); v["rings"] = rings(&p.rings); }, |r| Some(r.n_bytes_already_read));
    }
}

fn run_dbf<R: Read>(s: &Session, out: &mut Vec<Value>, open: impl FnOnce() -> Result<dbf::DbfReader<R>, dbf::DbfError>) {
    let fields = |r: &dbf::DbfReader<R>| Fields { all: r.meta.fields.to_vec(), named: s.names.iter().map(|n| r.get_field(n)).collect() };
    let r = step(s.json(), out, open, |r, v| match r {
        Err(e) => { v["k"] = json!("err"); v["e"] = e.tell(); }
        Ok(r) => {
            v["k"] = json!("ok");
            v["n"] = json!((r.meta.n_records as u32).to_le_bytes());
            v["len"] = json!(r.meta.n_bytes_per_record);
            v["far"] = json!(r.n_records_already_iterated.min(HUGE));
            fields(r).header(v);
        }
    });
    if let Some(Ok(mut r)) = r {
        let fs = fields(&r);
        walk(s, out, &mut r, |p, v| fs.vals(v, p), |r| Some(r.n_records_already_iterated));
    }
}

fn run_join<R: Read, S: Read>(s: &Session, out: &mut Vec<Value>, open: impl FnOnce() -> Result<ShapefileReader<R, S>, shapefile::ShapefileError>) {
    let fields = |r: &ShapefileReader<R, S>| Fields { all: r.dbf_fields().to_vec(), named: s.names.iter().map(|n| r.get_field(n)).collect() };
    let r = step(s.json(), out, open, |r, v| match r {
        Err(e) => { v["k"] = json!("err"); v["e"] = e.tell(); }
        Ok(r) => { v["k"] = json!("ok"); v["box"] = bbox(r.bounding_box()); fields(r).header(v); }
    });
    if let Some(Ok(mut r)) = r {
        let fs = fields(&r);
        if s.kind == Kind::Join {
            walk(s, out, &mut r, |p, v| {
                v["rings"] = rings(&p.rings);
                fs.vals(v, &p.data);
                if s.show {
                    v["text"] = cps(&format!("{}", p));
                    v["dtext"] = cps(&format!("{}", p.data));
                    v["rtext"] = Value::Array(p.rings.iter().map(|r| cps(&format!("{}", r))).collect());
                    v["coords"] = Value::Array(p.rings.iter().map(|r| Value::Array(r.0.iter().map(|q| json!([cps(&q.0.to_string()), cps(&q.1.to_string())])).collect())).collect());
                }
            }, |_| None);
        } else {
            let mut it = ShapefileGeoIterator::new(&mut r);
            walk(s, out, &mut it, |p, v| {
                v["o"] = qrings(&p.outer_rings);
                v["i"] = qrings(&p.inner_rings);
                fs.vals(v, &p.data);
            }, |_| None);
        }
    }
}

fn scratch() -> PathBuf {
    let d = PathBuf::from(std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| panic!("VERIF_SCRATCH is not set"))).join("files");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}

pub fn run(s: &Session, files: &[Vec<u8>], out: &mut Vec<Value>) {
    let e = enc(s.enc);
    let stream = |g: &Option<Given>, id: usize| g.as_ref().unwrap().stream(files, id);
    TOOK.with(|t| { t[0].set(-1); t[1].set(-1); });
    if let Some((name, how)) = &s.by_name {
        // the files lie in a directory with a few that must not be mistaken for them
        let dir = scratch();
        let path = dir.join(name);
        for (g, ext) in [(&s.shp, None), (&s.dbf, Some("dbf"))] {
            if let Some(g) = g { if g.f > 0 {
                let mut p = path.clone();
                if let Some(x) = ext { p.set_extension(x); }
                std::fs::write(&p, g.bytes(files)).unwrap();
            } }
        }
        let stem = path.file_stem().unwrap().to_str().unwrap().to_string();
        for decoy in [format!("{}.dbf", name), format!("{}2.dbf", stem), format!("{}.DBF", stem), "dbf".to_string(), ".dbf".to_string()] {
            let p = dir.join(decoy);
            // an empty but valid attribute file
            let mut empty = vec![3u8, 99, 1, 1, 0, 0, 0, 0, 33, 0, 1, 0];
            empty.resize(32, 0);
            empty.push(13);
            if p != path && p != path.with_extension("dbf") { std::fs::write(&p, &empty).unwrap(); }
        }
        match s.kind {
            Kind::Shp => run_shp(s, out, || shp::open(&path)),
            Kind::Dbf => {
                let mut p = path.clone();
                p.set_extension("dbf");
                run_dbf(s, out, || if *how == 1 && s.enc == 0 { dbf::open_ascii(&p) } else { dbf::open(&p, e) })
            }
            _ => run_join(s, out, || match (how, s.enc) {
                (1, 0) => shapefile::open_ascii(&path),
                (1, 1) => shapefile::open_utf8(&path),
                (1, 2) => shapefile::open_windows1252(&path),
                _ => shapefile::open(&path, e),
            }),
        }
        std::fs::remove_dir_all(&dir).unwrap();
        return;
    }
    match s.kind {
        Kind::Shp => { let r = stream(&s.shp, 0); run_shp(s, out, || shp::ShpReader::new(r)) }
        Kind::Dbf => { let r = stream(&s.dbf, 1); run_dbf(s, out, || dbf::DbfReader::new(r, e)) }
        _ => { let (r, q) = (stream(&s.shp, 0), stream(&s.dbf, 1)); run_join(s, out, || ShapefileReader::new(r, q, e)) }
    }
}
