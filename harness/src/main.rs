mod alloc;
mod gen;
mod own;
mod genread;
mod plan;
mod read;
mod rng;

use plan::*;
use rng::Rng;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

#[global_allocator]
static A: alloc::Mover = alloc::Mover;

static TICK: AtomicU64 = AtomicU64::new(0);

/// Ends the process if one case takes too long: a hang is a finding.
fn watchdog(limit_s: u64) {
    std::thread::spawn(move || {
        let mut last = 0;
        let mut since = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = TICK.load(SeqCst);
            if now != last { last = now; since = 0; } else { since += 1; }
            if since > limit_s * 2 && now > 0 {
                eprintln!("WATCHDOG: a case takes more than {} s", limit_s);
                std::process::exit(86);
            }
        }
    });
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{}", info).replace('\n', " ");
        LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));
    let a: Vec<String> = std::env::args().collect();
    watchdog(20);
    match a[1].as_str() {
        // gen FAMILY:COUNT[,..] SEED narrow|wide OUT CURRENT
        "gen" => gen(&a[2], a[3].parse().unwrap(), a[4] == "wide", &a[5], &a[6]),
        // replay IN narrow|wide OUT CURRENT
        "replay" => replay(&a[2], a[3] == "wide", &a[4], &a[5]),
        x => panic!("unknown command {}", x),
    }
}

/// Writes down the case about to run, in case it never returns.
fn about_to(cur: &str, case: &Case, f: Fmt) {
    let plan = json!({"id": case.id, "fam": case.fam, "data": case.data, "ops": case.ops.iter().map(|o| Value::Object(f.op_json(o))).collect::<Vec<_>>()});
    let mut plan = plan;
    if !case.files.is_empty() { plan["files"] = json!(case.files); }
    std::fs::write(cur, plan.to_string()).unwrap();
    TICK.fetch_add(1, SeqCst);
}

fn gen(spec: &str, seed: u64, wide: bool, out: &str, cur: &str) {
    let f = Fmt { wide };
    let mut w = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for part in spec.split(',') {
        let (fam, count) = part.split_once(':').unwrap();
        for n in 0..count.parse::<u64>().unwrap() {
            let h = fam.bytes().fold(seed.wrapping_mul(1_000_003) + wide as u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64));
            let mut r = Rng::new(h.wrapping_add(n.wrapping_mul(0x1_0000_0001)));
            let planned = guarded(|| if fam.starts_with('r') && !["ring", "rect"].contains(&fam) {
                let (files, s) = genread::sessions(&mut r, fam);
                (files, s.into_iter().map(Op::Read).collect())
            } else { (vec![], gen::history(&mut r, fam, wide)) });
            let (files, ops) = planned.unwrap_or_else(|e| { eprintln!("the generator of {} failed: {}", fam, e); std::process::exit(2) });
            let case = Case { id: format!("{}-{}-{}", fam, seed, n), fam: fam.to_string(), data: r.below(3) as u8, files, ops };
            about_to(cur, &case, f);
            let v = run(&case, f);
            writeln!(w, "{}", v).unwrap();
        }
    }
    w.flush().unwrap();
    let _ = std::fs::remove_file(cur);
}

fn replay(inp: &str, wide: bool, out: &str, cur: &str) {
    let f = Fmt { wide };
    let mut w = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for line in std::io::BufReader::new(std::fs::File::open(inp).unwrap()).lines() {
        let v: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let case = Case {
            id: v["id"].as_str().unwrap().to_string(),
            fam: v["fam"].as_str().unwrap().to_string(),
            data: v["data"].as_u64().unwrap_or(0) as u8,
            files: v.get("files").map_or(vec![], |f| serde_json::from_value(f.clone()).unwrap()),
            ops: v["ops"].as_array().unwrap().iter().filter(|o| o["op"] != "next").map(|o| f.read_op(o)).collect(),
        };
        about_to(cur, &case, f);
        let mut r = run(&case, f);
        if let Some(e) = v.get("exp") { r["exp"] = e.clone(); }
        writeln!(w, "{}", r).unwrap();
    }
    w.flush().unwrap();
    let _ = std::fs::remove_file(cur);
}
