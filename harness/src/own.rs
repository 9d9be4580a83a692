//! Histories in which topologies are also dropped: who owns which values, and
//! what is left when all are gone.
use crate::plan::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use topogeo::clip::clip_topology;
use topogeo::topology::{Topology, TopologyBuilder};

#[derive(Default)]
struct Book { next: u64, live: BTreeMap<u64, u32>, stray: u64 }
thread_local!(static BOOK: RefCell<Book> = RefCell::new(Book::default()));

/// A value that is entered in a book while it lives.
pub struct Tracked { id: u64, v: u32 }
fn enter(v: u32) -> Tracked {
    BOOK.with(|b| { let mut b = b.borrow_mut(); b.next += 1; let id = b.next; b.live.insert(id, v); Tracked { id, v } })
}
impl Tracked {
    /// One that has ended, or that never was, must not be used.
    fn alive(&self) -> bool {
        BOOK.with(|b| { let mut b = b.borrow_mut(); let ok = b.live.get(&self.id) == Some(&self.v); if !ok { b.stray += 1; } ok })
    }
}
impl Clone for Tracked { fn clone(&self) -> Tracked { self.alive(); enter(self.v) } }
impl Drop for Tracked { fn drop(&mut self) { if self.alive() { BOOK.with(|b| b.borrow_mut().live.remove(&self.id)); } } }
impl Data for Tracked { fn mk(u: u32) -> Tracked { enter(u) } fn get(&self) -> u32 { self.alive(); self.v } }

fn carry_out<D: Data>(op: &Op, held: &mut Vec<Option<Topology<D>>>) -> Result<Option<Topology<D>>, String> {
    match op {
        Op::Build(regions) => guarded(|| {
            let mut b = TopologyBuilder::<D>::new();
            for r in regions { b.add_region(lregion(r)); }
            Some(b.into_topology())
        }),
        Op::Abandon(regions) => guarded(|| {
            let mut b = TopologyBuilder::<D>::new();
            for r in regions { b.add_region(lregion(r)); }
            None
        }),
        Op::Normalize(s) => { let t = held[*s].as_ref().unwrap(); guarded(|| Some(topogeo::normalize(t))) }
        Op::Clip(s, m) => { let t = held[*s].as_ref().unwrap(); guarded(|| Some(clip_topology(t, &lmask(m)))) }
        Op::Simplify(s, x) => { let t = held[*s].take().unwrap(); guarded(|| Some(topogeo::simplify(t, *x))) }
        Op::Drop(s) => { let t = held[*s].take(); guarded(|| { drop(t); None }) }
        Op::End => Ok(None),
        _ => panic!("not an operation of these histories"),
    }
}
fn source(op: &Op) -> Option<usize> {
    match op { Op::Normalize(s) | Op::Clip(s, _) | Op::Simplify(s, _) | Op::Drop(s) => Some(*s), _ => None }
}

/// Bytes still in use after the whole history; nothing if it did not get to its end.
fn left_over(case: &Case) -> Option<i64> {
    let mut held: Vec<Option<Topology<String>>> = Vec::with_capacity(case.ops.len());
    let before = crate::alloc::in_use() as i64;
    for op in &case.ops {
        let gone = source(op).map_or(false, |s| held[s].is_none());
        let t = if gone { None } else { carry_out(op, &mut held).ok()? };
        held.push(t);
    }
    for t in held.iter_mut() { *t = None; }
    Some(crate::alloc::in_use() as i64 - before)
}

pub fn run(case: &Case, f: Fmt) -> Value {
    BOOK.with(|b| *b.borrow_mut() = Book::default());
    let mut held: Vec<Option<Topology<Tracked>>> = vec![];
    let mut snaps: Vec<Option<Snap>> = vec![];
    let mut out: Vec<Value> = vec![];
    let mut ended = true;
    for op in &case.ops {
        let mut j = f.op_json(op);
        let gone = source(op).map_or(false, |s| held[s].is_none() || (!matches!(op, Op::Drop(_)) && !snaps[s].as_ref().unwrap().sound()));
        if gone {
            j.insert("skip".into(), json!(true));
            held.push(None); snaps.push(None);
        } else {
            match carry_out(op, &mut held) {
                Err(msg) => { j.insert("panic".into(), json!(msg)); out.push(Value::Object(j)); ended = false; break; }
                Ok(t) => {
                    let sn = t.as_ref().map(|t| snap(t));
                    if let Some(sn) = &sn { j.insert("ds".into(), json!(sn.regions.iter().map(|r| r.0).collect::<Vec<_>>())); }
                    held.push(t); snaps.push(sn);
                    if let Op::Simplify(s, _) | Op::Drop(s) = op { snaps[*s] = None; }
                }
            }
        }
        let intact = held.iter().zip(&snaps).all(|(t, s)| t.as_ref().map(|t| snap(t)) == *s);
        let (live, stray) = BOOK.with(|b| { let b = b.borrow(); let mut v: Vec<u32> = b.live.values().cloned().collect(); v.sort(); (v, b.stray) });
        j.insert("live".into(), json!(live));
        j.insert("stray".into(), json!(stray));
        j.insert("intact".into(), json!(intact));
        if let Op::End = op {
            if ended {
                left_over(case); // what is allocated once and for all is allocated now
                if let Some(n) = left_over(case) { j.insert("left".into(), json!(n)); }
            }
        }
        out.push(Value::Object(j));
    }
    // whatever happened, do not trip over it here
    std::mem::forget(held);
    json!({"id": case.id, "fam": case.fam, "data": case.data, "ops": out})
}
