//! Cases: histories of operations on topologies, their JSON form, and running
//! them against the library.
use serde_json::{json, Map, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use topogeo::clip::{clip_topology, edge::clip_edge, ClipMask};
use topogeo::geo::{self, Edge, Point, Region, Ring, WindingOrder};
use topogeo::topology::{Direction, DirectedEdge, TopoEdge, TopoRegion, TopoRing, Topology, TopologyBuilder};

pub type Pt = (u32, u32);
pub type Path = Vec<Pt>;

#[derive(Clone, Debug, PartialEq)]
pub enum RingIn { P(Path), E(Vec<Path>) }
#[derive(Clone, Debug)]
pub struct RegionIn { pub d: u32, pub o: Vec<RingIn>, pub i: Vec<RingIn> }
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Mask { pub k: u8, pub v: u32 }

#[derive(Clone, Debug)]
pub enum Op {
    Build(Vec<RegionIn>),
    Normalize(usize),
    Clip(usize, Mask),
    Simplify(usize, u64),
    /// regions given to a builder that is then dropped
    Abandon(Vec<RegionIn>),
    Drop(usize),
    End,
    ClipPath(Path, Mask),
    Ring(RingIn),
    Same(usize, usize),
    Again(usize, usize),
    Rect(usize, usize, Vec<Mask>),
    Mono(usize, usize),
    Twice(usize, usize),
    Show(Show),
    Read(crate::read::Session),
}
/// Things that can be printed.
#[derive(Clone, Debug)]
pub enum Show { Point(Pt), Edge(Path), Ring(RingIn), Region(RegionIn) }

pub struct Case { pub id: String, pub fam: String, pub data: u8, pub files: Vec<Vec<u8>>, pub ops: Vec<Op> }

// ---------------------------------------------------------------- JSON

/// Coordinates and numbers are native integers in narrow files, limbs in wide ones.
#[derive(Clone, Copy)]
pub struct Fmt { pub wide: bool }
impl Fmt {
    pub fn c(&self, u: u32) -> Value {
        if self.wide { json!([u / 100_000_000, u / 10_000 % 10_000, u % 10_000]) } else { json!(u) }
    }
    pub fn n(&self, n: i128) -> Value {
        if !self.wide {
            return json!(n.clamp(-0x7fff_ffff, 0x7fff_ffff) as i64);
        }
        let mut v = vec![];
        let mut n = n;
        for _ in 0..6 { v.push(n.rem_euclid(10_000) as i64); n = n.div_euclid(10_000); }
        v.push(n as i64);
        json!(v)
    }
    pub fn pt(&self, p: &Pt) -> Value { Value::Array(vec![self.c(p.0), self.c(p.1)]) }
    pub fn path(&self, p: &[Pt]) -> Value { Value::Array(p.iter().map(|p| self.pt(p)).collect()) }
    pub fn paths(&self, p: &[Path]) -> Value { Value::Array(p.iter().map(|p| self.path(p)).collect()) }
    pub fn mask(&self, m: &Mask) -> Value { json!({"k": m.k, "v": self.c(m.v)}) }
    pub fn ring(&self, r: &RingIn) -> Value {
        match r { RingIn::P(p) => json!({"t":"p","p":self.path(p)}), RingIn::E(e) => json!({"t":"e","e":self.paths(e)}) }
    }
    pub fn region(&self, r: &RegionIn) -> Value {
        json!({"d": r.d, "o": r.o.iter().map(|x| self.ring(x)).collect::<Vec<_>>(), "i": r.i.iter().map(|x| self.ring(x)).collect::<Vec<_>>()})
    }

    pub fn rc(&self, v: &Value) -> u32 {
        if let Some(a) = v.as_array() {
            (a[0].as_u64().unwrap() * 100_000_000 + a[1].as_u64().unwrap() * 10_000 + a[2].as_u64().unwrap()) as u32
        } else { v.as_u64().unwrap() as u32 }
    }
    pub fn rn(&self, v: &Value) -> i128 {
        if let Some(a) = v.as_array() {
            a.iter().rev().fold(0i128, |acc, x| acc * 10_000 + x.as_i64().unwrap() as i128)
        } else { v.as_i64().unwrap() as i128 }
    }
    pub fn rpt(&self, v: &Value) -> Pt { (self.rc(&v[0]), self.rc(&v[1])) }
    pub fn rpath(&self, v: &Value) -> Path { v.as_array().unwrap().iter().map(|p| self.rpt(p)).collect() }
    pub fn rmask(&self, v: &Value) -> Mask { Mask { k: v["k"].as_u64().unwrap() as u8, v: self.rc(&v["v"]) } }
    pub fn rring(&self, v: &Value) -> RingIn {
        if v["t"] == "p" { RingIn::P(self.rpath(&v["p"])) }
        else { RingIn::E(v["e"].as_array().unwrap().iter().map(|e| self.rpath(e)).collect()) }
    }
    pub fn rregion(&self, v: &Value) -> RegionIn {
        let rs = |k: &str| v[k].as_array().unwrap().iter().map(|r| self.rring(r)).collect();
        RegionIn { d: v["d"].as_u64().unwrap() as u32, o: rs("o"), i: rs("i") }
    }
    pub fn op_json(&self, op: &Op) -> Map<String, Value> {
        let v = match op {
            Op::Build(i) => json!({"op":"build","in":i.iter().map(|r| self.region(r)).collect::<Vec<_>>()}),
            Op::Abandon(i) => json!({"op":"abandon","in":i.iter().map(|r| self.region(r)).collect::<Vec<_>>()}),
            Op::Drop(s) => json!({"op":"drop","src":s + 1}),
            Op::End => json!({"op":"end"}),
            Op::Normalize(s) => json!({"op":"normalize","src":s + 1}),
            Op::Clip(s, m) => json!({"op":"clip","src":s + 1,"m":self.mask(m)}),
            Op::Simplify(s, t) => json!({"op":"simplify","src":s + 1,"thr":self.n(*t as i128)}),
            Op::ClipPath(p, m) => json!({"op":"clippath","path":self.path(p),"m":self.mask(m)}),
            Op::Ring(r) => json!({"op":"ring","r":self.ring(r)}),
            Op::Twice(a, b) => json!({"op":"twice","a":a + 1,"b":b + 1}),
            Op::Same(a, b) => json!({"op":"same","a":a + 1,"b":b + 1}),
            Op::Again(a, b) => json!({"op":"again","a":a + 1,"b":b + 1}),
            Op::Rect(a, b, ms) => json!({"op":"rect","a":a + 1,"b":b + 1,"ms":ms.iter().map(|m| self.mask(m)).collect::<Vec<_>>()}),
            Op::Mono(a, b) => json!({"op":"mono","a":a + 1,"b":b + 1}),
            Op::Read(s) => s.json(),
            Op::Show(s) => match s {
                Show::Point(p) => json!({"op":"show","what":"point","v":self.pt(p)}),
                Show::Edge(p) => json!({"op":"show","what":"edge","v":self.path(p)}),
                Show::Ring(r) => json!({"op":"show","what":"ring","v":self.ring(r)}),
                Show::Region(r) => json!({"op":"show","what":"region","v":self.region(r)}),
            },
        };
        match v { Value::Object(m) => m, _ => unreachable!() }
    }
    pub fn read_op(&self, v: &Value) -> Op {
        let u = |k: &str| v[k].as_u64().unwrap() as usize - 1;
        match v["op"].as_str().unwrap() {
            "build" => Op::Build(v["in"].as_array().unwrap().iter().map(|r| self.rregion(r)).collect()),
            "abandon" => Op::Abandon(v["in"].as_array().unwrap().iter().map(|r| self.rregion(r)).collect()),
            "drop" => Op::Drop(u("src")),
            "end" => Op::End,
            "normalize" => Op::Normalize(u("src")),
            "clip" => Op::Clip(u("src"), self.rmask(&v["m"])),
            "simplify" => Op::Simplify(u("src"), { let t = self.rn(&v["thr"]); if !self.wide && t == 0x7fff_ffff { u64::MAX } else { t as u64 } }),
            "clippath" => Op::ClipPath(self.rpath(&v["path"]), self.rmask(&v["m"])),
            "ring" => Op::Ring(self.rring(&v["r"])),
            "twice" => Op::Twice(u("a"), u("b")),
            "same" => Op::Same(u("a"), u("b")),
            "again" => Op::Again(u("a"), u("b")),
            "rect" => Op::Rect(u("a"), u("b"), v["ms"].as_array().unwrap().iter().map(|m| self.rmask(m)).collect()),
            "mono" => Op::Mono(u("a"), u("b")),
            "show" => Op::Show(match v["what"].as_str().unwrap() {
                "point" => Show::Point(self.rpt(&v["v"])),
                "edge" => Show::Edge(self.rpath(&v["v"])),
                "ring" => Show::Ring(self.rring(&v["v"])),
                _ => Show::Region(self.rregion(&v["v"])),
            }),
            "read" => Op::Read(crate::read::Session::read(v)),
            x => panic!("unknown op {}", x),
        }
    }
}

// ---------------------------------------------------------------- library values

fn lp(p: &[Pt]) -> Box<[Point]> { p.iter().map(|p| Point(p.0, p.1)).collect::<Vec<_>>().into_boxed_slice() }
fn pl(p: &[Point]) -> Path { p.iter().map(|p| (p.0, p.1)).collect() }
fn le(e: &[Path]) -> Box<[Edge]> { e.iter().map(|p| Edge(lp(p))).collect::<Vec<_>>().into_boxed_slice() }
fn lring(r: &RingIn) -> Ring { match r { RingIn::P(p) => Ring::Points(lp(p)), RingIn::E(e) => Ring::Edges(le(e)) } }
pub fn lmask(m: &Mask) -> ClipMask {
    match m.k { 0 => ClipMask::MinX(m.v), 1 => ClipMask::MaxX(m.v), 2 => ClipMask::MinY(m.v), _ => ClipMask::MaxY(m.v) }
}
pub fn lregion<D: Data>(r: &RegionIn) -> Region<D> {
    Region {
        data: D::mk(r.d),
        outer_rings: r.o.iter().map(lring).collect::<Vec<_>>().into_boxed_slice(),
        inner_rings: r.i.iter().map(lring).collect::<Vec<_>>().into_boxed_slice(),
    }
}

/// Region data of various sizes.
pub trait Data: Clone { fn mk(u: u32) -> Self; fn get(&self) -> u32; }
impl Data for u32 { fn mk(u: u32) -> u32 { u } fn get(&self) -> u32 { *self } }
impl Data for String { fn mk(u: u32) -> String { format!("region number {}", u) } fn get(&self) -> u32 { self[14..].parse().unwrap() } }
#[derive(Clone)] pub struct Fat([u64; 9], u8);
impl Data for Fat {
    fn mk(u: u32) -> Fat { Fat([u as u64; 9], 7) }
    fn get(&self) -> u32 { assert!(self.0.iter().all(|x| *x == self.0[0]) && self.1 == 7); self.0[0] as u32 }
}

/// A topology with links as indices; 0 stands for a link that is wrong.
#[derive(Clone, PartialEq, Debug)]
pub struct Snap { pub edges: Vec<(Path, [Option<(usize, usize, usize)>; 2])>, pub regions: Vec<(u32, Vec<SRing>, Vec<SRing>)> }
#[derive(Clone, PartialEq, Debug)]
pub struct SRing { pub g: usize, pub e: Vec<(usize, bool)> }

fn index_of<T>(base: *const T, len: usize, p: *const T) -> usize {
    for i in 0..len { if unsafe { base.add(i) } == p { return i + 1; } }
    0
}

pub fn snap<D: Data>(t: &Topology<D>) -> Snap {
    // ring address -> id
    let mut ids = std::collections::HashMap::new();
    for (g, r) in t.regions.iter().enumerate() {
        for (i, ring) in r.outer_rings.iter().enumerate() { ids.insert(ring as *const TopoRing<D> as usize, (g + 1, 0, i + 1)); }
        for (i, ring) in r.inner_rings.iter().enumerate() { ids.insert(ring as *const TopoRing<D> as usize, (g + 1, 1, i + 1)); }
    }
    let size = std::mem::size_of::<TopoEdge<D>>();
    let base = t.edges.as_ptr() as usize;
    let edge_index = |p: *const TopoEdge<D>| {
        let p = p as usize;
        if p >= base && (p - base) % size == 0 && (p - base) / size < t.edges.len() { (p - base) / size + 1 } else { 0 }
    };
    let ring = |r: &TopoRing<D>| SRing {
        g: index_of(t.regions.as_ptr(), t.regions.len(), r.region),
        e: r.directed_edges.iter().map(|de| (edge_index(de.edge), de.direction == Direction::Forward)).collect(),
    };
    Snap {
        edges: t.edges.iter().map(|e| (pl(&e.points), [0, 1].map(|s| {
            let p = e.rings[s];
            if p.is_null() { None } else { Some(*ids.get(&(p as usize)).unwrap_or(&(0, 0, 0))) }
        }))).collect(),
        regions: t.regions.iter().map(|r| (r.data.get(), r.outer_rings.iter().map(&ring).collect(), r.inner_rings.iter().map(&ring).collect())).collect(),
    }
}

impl Snap {
    pub fn json(&self, f: Fmt) -> Value {
        let ring = |r: &SRing| json!({"g": r.g, "e": r.e.iter().map(|(n, d)| json!([n, if *d {1} else {0}])).collect::<Vec<_>>()});
        json!({
            "edges": self.edges.iter().map(|(p, s)| json!({"p": f.path(p), "r": s.iter().map(|x| match x { None => json!([]), Some((a, b, c)) => json!([a, b, c]) }).collect::<Vec<_>>()})).collect::<Vec<_>>(),
            "regions": self.regions.iter().map(|(d, o, i)| json!({"d": d, "o": o.iter().map(ring).collect::<Vec<_>>(), "i": i.iter().map(ring).collect::<Vec<_>>()})).collect::<Vec<_>>(),
        })
    }
    /// No link is wrong, so the library may follow them.
    pub fn sound(&self) -> bool {
        self.edges.iter().all(|(_, s)| s.iter().all(|x| x.map_or(true, |x| x.0 > 0)))
            && self.regions.iter().all(|(_, o, i)| o.iter().chain(i).all(|r| r.g > 0 && r.e.iter().all(|(n, _)| *n > 0 && self.edges[n - 1].1[0].is_some())))
    }
    /// An equal topology, with links of its own.
    pub fn topology<D: Data>(&self) -> Topology<D> {
        let mut edges: Box<[TopoEdge<D>]> = self.edges.iter().map(|(p, _)| TopoEdge { points: lp(p), rings: [std::ptr::null(); 2] }).collect::<Vec<_>>().into_boxed_slice();
        let base = edges.as_ptr();
        let rings = |rs: &Vec<SRing>| rs.iter().map(|r| TopoRing {
            directed_edges: r.e.iter().map(|(n, d)| DirectedEdge { edge: unsafe { base.add(n - 1) }, direction: if *d { Direction::Forward } else { Direction::Backward } }).collect::<Vec<_>>().into_boxed_slice(),
            region: std::ptr::null(),
        }).collect::<Vec<_>>().into_boxed_slice();
        let mut regions: Box<[TopoRegion<D>]> = self.regions.iter().map(|(d, o, i)| TopoRegion { data: D::mk(*d), outer_rings: rings(o), inner_rings: rings(i) }).collect::<Vec<_>>().into_boxed_slice();
        for region in regions.iter_mut() {
            let p = region as *const TopoRegion<D>;
            for r in region.outer_rings.iter_mut().chain(region.inner_rings.iter_mut()) { r.region = p; }
        }
        for (n, (_, s)) in self.edges.iter().enumerate() {
            for k in 0..2 {
                if let Some((g, kind, i)) = s[k] {
                    let reg = &regions[g - 1];
                    edges[n].rings[k] = if kind == 0 { &reg.outer_rings[i - 1] } else { &reg.inner_rings[i - 1] };
                }
            }
        }
        Topology { regions, edges }
    }
}

fn cw(w: WindingOrder) -> bool { w == WindingOrder::Clockwise }

thread_local!(pub static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

struct Done<D> { topo: Option<Topology<D>>, snap: Option<Snap> }

fn run_as<D: Data>(case: &Case, f: Fmt) -> Value {
    let mut done: Vec<Done<D>> = vec![];
    let mut out: Vec<Value> = vec![];

    for op in &case.ops {
        if let Op::Read(s) = op { crate::read::run(s, &case.files, &mut out); continue; }
        let mut j = f.op_json(op);
        let mut this = Done { topo: None, snap: None };
        // a source we must not hand to the library
        let unusable = |s: usize, done: &Vec<Done<D>>| done[s].topo.is_none() || !done[s].snap.as_ref().unwrap().sound();

        let result: Result<Option<Topology<D>>, String> = match op {
            Op::Build(regions) => guarded(|| {
                let mut b = TopologyBuilder::<D>::new();
                for r in regions { b.add_region(lregion(r)); }
                Some(b.into_topology())
            }),
            Op::Normalize(s) | Op::Clip(s, _) | Op::Simplify(s, _) if unusable(*s, &done) => { j.insert("skip".into(), json!(true)); Ok(None) }
            Op::Normalize(s) => guarded(|| Some(topogeo::normalize(done[*s].topo.as_ref().unwrap()))),
            Op::Clip(s, m) => guarded(|| Some(clip_topology(done[*s].topo.as_ref().unwrap(), &lmask(m)))),
            Op::Simplify(s, t) => {
                let copy = done[*s].snap.as_ref().unwrap().topology::<D>();
                guarded(|| Some(topogeo::simplify(copy, *t)))
            }
            Op::ClipPath(p, m) => guarded(|| {
                let got = pl(&clip_edge(&lp(p), &lmask(m)));
                j.insert("out".into(), f.path(&got));
                None
            }),
            Op::Ring(r) => guarded(|| {
                let ring = lring(r);
                let (a2, w2) = ring.area2_and_winding_order();
                let pts = ring.points();
                let edges = ring.edges();
                let es: Vec<Path> = edges.iter().map(|e| pl(&e.0)).collect();
                let back = Ring::Edges(edges).points();
                j.insert("out".into(), json!({
                    "area2": f.n(ring.area2() as i128), "cw": cw(ring.winding_order()),
                    "area2b": f.n(a2 as i128), "cwb": cw(w2),
                    "signed": f.n(geo::signed_area2(pts.iter()) as i128),
                    "farea2": f.n(geo::area2(pts.iter()) as i128), "fcw": cw(geo::winding_order(pts.iter())),
                    "points": f.path(&pl(&pts)), "edges": f.paths(&es), "back": f.path(&pl(&back)),
                }));
                None
            }),
            Op::Show(s) => guarded(|| {
                let text = match s {
                    Show::Point(p) => format!("{}", Point(p.0, p.1)),
                    Show::Edge(p) => format!("{}", Edge(lp(p))),
                    Show::Ring(r) => format!("{}", lring(r)),
                    Show::Region(r) => format!("{}", lregion::<u32>(r)),
                };
                j.insert("out".into(), json!(text));
                None
            }),
            Op::Same(..) | Op::Twice(..) | Op::Again(..) | Op::Rect(..) | Op::Mono(..) | Op::Read(_) | Op::Abandon(_) | Op::Drop(_) | Op::End => Ok(None),
        };
        match result {
            Err(msg) => { j.remove("out"); j.insert("panic".into(), json!(msg)); }
            Ok(None) => {}
            Ok(Some(t)) => {
                match op {
                    Op::Normalize(s) | Op::Clip(s, _) => {
                        let d = &done[*s];
                        j.insert("same".into(), json!(snap(d.topo.as_ref().unwrap()) == *d.snap.as_ref().unwrap()));
                    }
                    _ => {}
                }
                let sn = snap(&t);
                j.insert("post".into(), sn.json(f));
                this.snap = Some(sn);
                this.topo = Some(t);
            }
        }
        out.push(Value::Object(j));
        done.push(this);
    }
    let mut v = json!({"id": case.id, "fam": case.fam, "data": case.data, "ops": out});
    if !case.files.is_empty() { v["files"] = json!(case.files); }
    v
}

/// What is done twice is done the second time with another type of data.
pub fn run(case: &Case, f: Fmt) -> Value {
    if let Some(Op::End) = case.ops.last() { return crate::own::run(case, f); }
    let mut v = run_with(case.data, case, f);
    let again: Vec<usize> = case.ops.iter().filter_map(|o| match o { Op::Twice(_, b) => Some(*b), _ => None }).collect();
    if !again.is_empty() {
        let w = run_with((case.data + 1) % 3, case, f);
        for k in again { v["ops"][k] = w["ops"][k].clone(); }
    }
    v
}

fn run_with(data: u8, case: &Case, f: Fmt) -> Value {
    match data { 0 => run_as::<u32>(case, f), 1 => run_as::<String>(case, f), _ => run_as::<Fat>(case, f) }
}
