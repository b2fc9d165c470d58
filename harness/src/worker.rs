use crate::ctx::{Ctx, Fail, Tier};
use crate::props;
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::Instant;

thread_local! { pub static LAST_PANIC: RefCell<(String, String)> = RefCell::new((String::new(), String::new())); }
static CASE: AtomicU64 = AtomicU64::new(u64::MAX);

pub struct Args(BTreeMap<String, String>, Vec<String>);
impl Args {
    fn new() -> Self {
        let mut m = BTreeMap::new();
        let mut p = vec![];
        let mut it = std::env::args().skip(1);
        while let Some(a) = it.next() {
            if let Some(k) = a.strip_prefix("--") {
                m.insert(k.to_string(), it.next().unwrap_or_default());
            } else {
                p.push(a);
            }
        }
        Args(m, p)
    }
    fn u64(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).map(|v| v.parse().expect("number")).unwrap_or(d)
    }
    fn str(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or(d.into())
    }
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn id_hash(id: &str) -> u64 {
    id.bytes().fold(1469598103934665603, |h, b| (h ^ b as u64).wrapping_mul(1099511628211))
}

fn load_dict(f: &str) -> &'static [u64] {
    let s = std::fs::read_to_string(f).unwrap_or_default();
    let v: Vec<u64> = s.split_whitespace().filter_map(|x| x.parse().ok()).collect();
    Box::leak(v.into_boxed_slice())
}

pub enum Outcome {
    Ok,
    Skip(&'static str),
    Bad(String),
    HarnessBug(String),
}

#[allow(clippy::too_many_arguments)]
fn one(id: &str, f: props::CaseFn, seed: u64, idx: u64, tier: Tier, dict: &'static [u64], want: bool, aux: &'static str) -> (Ctx, Outcome) {
    let mut s = seed ^ id_hash(id) ^ idx.wrapping_mul(0xa0761d6478bd642f);
    let mut cx = Ctx {
        rng: Rng::new(crate::rng::splitmix(&mut s)),
        idx,
        tier,
        dict,
        setup: false,
        want_desc: want,
        desc: String::new(),
        hash: 0,
        nontrivial: false,
        ev: BTreeMap::new(),
        aux,
    };
    let f = match () {
        _ if aux.contains("tsan") => f,
        _ if props::many::due(idx) => props::many::find(id).unwrap_or(f),
        _ if props::sizes::due(idx) => props::sizes::find(id).unwrap_or(f),
        _ => f,
    };
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut cx)));
    let o = match r {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(Fail::Skip(w))) => Outcome::Skip(w),
        Ok(Err(Fail::Violation(m))) => Outcome::Bad(m),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow().clone());
            if loc.starts_with("src/") {
                Outcome::HarnessBug(format!("{}: {}", loc, msg))
            } else if cx.setup {
                Outcome::Skip("panic while setting up")
            } else {
                Outcome::Bad(format!("panic at {}: {}", loc, msg))
            }
        }
    };
    (cx, o)
}

/// utime + stime of this process, from /proc/self/stat in clock ticks of 10 ms. Allocates
/// nothing: the watchdog runs beside cases that count allocations.
fn cpu_secs() -> f64 {
    use std::io::Read;
    let mut buf = [0u8; 1024];
    let n = std::fs::File::open("/proc/self/stat").and_then(|mut f| f.read(&mut buf)).unwrap_or(0);
    let s = std::str::from_utf8(&buf[..n]).unwrap_or("");
    let rest = s.rsplit(')').next().unwrap_or("");
    let mut f = rest.split_ascii_whitespace().skip(11);
    let t: u64 = f.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    let u: u64 = f.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    (t + u) as f64 / 100.0
}

fn watchdog(limit: f64) {
    if cfg!(miri) {
        // interpreted threads share one processor; check.py bounds these workers
        return;
    }
    static UP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    std::thread::spawn(move || {
        let _ = cpu_secs();
        UP.store(true, Relaxed);
        let mut case = u64::MAX;
        let mut start = 0.0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let c = CASE.load(Relaxed);
            let now = cpu_secs();
            if c != case {
                case = c;
                start = now;
            } else if case != u64::MAX && now - start > limit {
                eprintln!("GXMON-HANG case {} used {:.1} s of CPU", case, now - start);
                std::process::exit(77);
            }
        }
    });
    // The thread's own start-up allocates and releases: let that be over.
    while !UP.load(Relaxed) {
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
}

pub fn main() -> i32 {
    let a = Args::new();
    let mode = a.1.first().cloned().unwrap_or_default();
    if mode == "merge" {
        let mut all: HashSet<u64> = HashSet::new();
        for f in &a.1[1..] {
            let b = std::fs::read(f).unwrap_or_default();
            for c in b.chunks_exact(8) {
                all.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        println!("{}", all.len());
        return 0;
    }
    let id = a.1.get(1).cloned().unwrap_or_default();
    let Some(f) = props::find(&id) else {
        eprintln!("no such property: {}", id);
        return 2;
    };
    let seed = a.u64("seed", 1);
    let tier = if a.str("tier", "quick") == "thorough" { Tier::Thorough } else { Tier::Quick };
    let dict = load_dict(&a.str("dict", "/nonexistent"));
    let aux: &'static str = Box::leak(a.str("aux", "").into_boxed_str());
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        // A panic that cannot unwind (extern "C") ends the process: leave a trace of it.
        eprintln!("panic at {}: {}", loc, msg);
        LAST_PANIC.with(|p| *p.borrow_mut() = (loc, msg));
    }));
    let limit = a.u64("cpu-limit", 60) as f64;
    match mode.as_str() {
        "replay" => {
            watchdog(limit);
            let idx = a.u64("case", 0);
            CASE.store(idx, Relaxed);
            let (cx, o) = one(&id, f, seed, idx, tier, dict, true, aux);
            println!("case {} of {} (seed {}): {}", idx, id, seed, cx.desc);
            match o {
                Outcome::Ok => println!("RESULT held"),
                Outcome::Skip(w) => println!("RESULT skipped: {}", w),
                Outcome::Bad(m) => {
                    println!("RESULT violation: {}", m);
                    return 1;
                }
                Outcome::HarnessBug(m) => {
                    println!("RESULT harness bug: {}", m);
                    return 3;
                }
            }
            0
        }
        "run" => run(&a, &id, f, seed, tier, dict, limit, aux),
        _ => {
            eprintln!("usage: gxmon run|replay|merge ...");
            2
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn run(a: &Args, id: &str, f: props::CaseFn, seed: u64, tier: Tier, dict: &'static [u64], limit: f64, aux: &'static str) -> i32 {
    use std::os::unix::fs::FileExt;
    let (shard, nshards) = (a.u64("shard", 0), a.u64("nshards", 1));
    let secs = a.u64("seconds", 5) as f64;
    let min = a.u64("min", 0);
    let max = a.u64("max", u64::MAX);
    let out = a.str("out", "/tmp");
    let name = format!("{}/{}-{}", out, id, a.str("tag", &shard.to_string()));
    let state = std::fs::File::create(format!("{}.state", name)).expect("state file");
    watchdog(limit);
    let t0 = Instant::now();
    let mut ev: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut skips: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let (mut cases, mut nontrivial) = (0u64, 0u64);
    let mut samples: Vec<String> = vec![];
    let mut failure: Option<(u64, String)> = None;
    let mut bug: Option<String> = None;
    let mut idx = shard;
    let mut k = 0u64;
    while k < max && (k < min || t0.elapsed().as_secs_f64() < secs) {
        CASE.store(idx, Relaxed);
        let _ = state.write_at(&idx.to_le_bytes(), 0);
        let want = k < 1 || (k.is_power_of_two() && k > 16 && samples.len() < 4);
        let (cx, o) = one(id, f, seed, idx, tier, dict, want, aux);
        cases += 1;
        if let Outcome::Ok | Outcome::Bad(_) = o {
            if cx.nontrivial {
                nontrivial += 1;
                if hashes.len() < 3_000_000 {
                    hashes.insert(cx.hash);
                }
            }
        }
        for (w, n) in cx.ev {
            *ev.entry(w).or_insert(0) += n;
        }
        if want && !cx.desc.is_empty() {
            let mut d = cx.desc;
            if d.len() > 600 {
                let mut at = 600;
                while !d.is_char_boundary(at) {
                    at -= 1;
                }
                d.truncate(at);
                d.push_str("...");
            }
            samples.push(format!("case {}: {}", idx, d));
        }
        match o {
            Outcome::Ok => {}
            Outcome::Skip(w) => *skips.entry(w).or_insert(0) += 1,
            Outcome::Bad(m) => {
                failure = Some((idx, m));
                break;
            }
            Outcome::HarnessBug(m) => {
                bug = Some(format!("case {}: {}", idx, m));
                break;
            }
        }
        idx += nshards;
        k += 1;
    }
    CASE.store(u64::MAX, Relaxed);
    let mut hb = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(format!("{}.hash", name), hb).expect("hash file");
    let map = |m: &BTreeMap<&'static str, u64>| {
        m.iter().map(|(k, v)| format!("{}:{}", json(k), v)).collect::<Vec<_>>().join(",")
    };
    let mut o = std::fs::File::create(format!("{}.json", name)).expect("result file");
    let _ = writeln!(
        o,
        "{{\"cases\":{},\"nontrivial\":{},\"distinct\":{},\"seconds\":{:.2},\"events\":{{{}}},\"skips\":{{{}}},\"samples\":[{}],\"failure\":{},\"bug\":{}}}",
        cases,
        nontrivial,
        hashes.len(),
        t0.elapsed().as_secs_f64(),
        map(&ev),
        map(&skips),
        samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(","),
        match &failure {
            Some((i, m)) => format!("{{\"case\":{},\"message\":{}}}", i, json(m)),
            None => "null".into(),
        },
        bug.as_ref().map(|b| json(b)).unwrap_or("null".into())
    );
    if bug.is_some() {
        3
    } else if failure.is_some() {
        1
    } else {
        0
    }
}
