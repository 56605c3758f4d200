//! Exhaustive case runner: enumerates every case index of every family, runs the
//! real code on it, collects coverage counts and reports the first violation.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Per-case collector.
pub struct Cx {
    pub transitions: u64,
    pub states: Vec<u64>,
    pub outcomes: Vec<String>,
    pub sample: Option<String>,
    pub traces: u64,
    pub ambiguous: u64,
    pub metrics: Vec<(String, f64)>,
}
impl Cx {
    fn new() -> Cx {
        Cx {
            transitions: 0,
            states: vec![],
            outcomes: vec![],
            sample: None,
            traces: 0,
            ambiguous: 0,
            metrics: vec![],
        }
    }
    pub fn outcome(&mut self, s: impl Into<String>) {
        self.outcomes.push(s.into());
    }
    /// Largest value seen for `name` (reported in the evidence).
    pub fn metric(&mut self, name: impl Into<String>, v: f64) {
        self.metrics.push((name.into(), v));
    }
    pub fn state(&mut self, h: u64) {
        self.states.push(h);
    }
}

pub type CaseResult = Result<(), String>;
pub type CaseFn = Box<dyn Fn(u64, &mut Cx) -> CaseResult + Send + Sync>;

/// A finite family of cases, numbered 0..count.
pub struct Family {
    pub name: String,
    pub count: u64,
    pub run: CaseFn,
}
pub fn family(
    name: impl Into<String>,
    count: u64,
    run: impl Fn(u64, &mut Cx) -> CaseResult + Send + Sync + 'static,
) -> Family {
    Family {
        name: name.into(),
        count,
        run: Box::new(run),
    }
}

pub fn hash_f64s(tag: u64, xs: &[f64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ tag.wrapping_mul(0x9E3779B97F4A7C15);
    for x in xs {
        h ^= x.to_bits();
        h = h.wrapping_mul(0x100000001b3);
        h ^= h >> 29;
        h = h.wrapping_mul(0xBF58476D1CE4E5B9);
        h ^= h >> 32;
    }
    h
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Meta {
    pub id: &'static str,
    pub rule: String,
    pub assumptions: Vec<String>,
}

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

#[derive(Default)]
struct Total {
    evals: u64,
    transitions: u64,
    traces: u64,
    ambiguous: u64,
    states: HashSet<u64>,
    outcomes: BTreeMap<String, u64>,
    samples: Vec<String>,
    metrics: BTreeMap<String, f64>,
}

pub struct Args {
    pub tier: Tier,
    pub seed: u64,
    pub dir: String,
    pub only: Option<(String, u64)>,
    pub list_metrics: bool,
}

/// The outcomes with how often each was seen; of very many only the most frequent.
fn common(o: &BTreeMap<String, u64>) -> String {
    let mut v: Vec<_> = o.iter().collect();
    v.sort_by_key(|x| (std::cmp::Reverse(*x.1), x.0.clone()));
    let more = v.len().saturating_sub(400);
    v.truncate(400);
    v.sort();
    let mut s: Vec<String> = v.iter().map(|(k, n)| format!("{}: {}", json_str(k), n)).collect();
    if more > 0 {
        s.push(format!("\"further kinds\": {}", more));
    }
    s.join(", ")
}
/// Most states kept for the distinct count; beyond it the count is a lower bound.
const STATE_CAP: usize = 20_000_000;

pub fn run_families(meta: Meta, fams: Vec<Family>, args: &Args) -> i32 {
    let start = Instant::now();
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let total = Mutex::new(Total::default());
    let violation: Mutex<Option<(usize, u64, String)>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    // progress slots for the watchdog: (start millis + 1, family, case)
    let slots: Vec<(AtomicU64, AtomicU64, AtomicU64)> = (0..nthreads)
        .map(|_| (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)))
        .collect();
    let hang_ms: u64 = if args.tier == Tier::Quick { 120_000 } else { 600_000 };
    let mut fam_counts: Vec<(String, u64)> = vec![];

    std::thread::scope(|sc| {
        let slots = &slots;
        let done_r = &done;
        let fams_r = &fams;
        let metaid = meta.id;
        let argsr = args;
        sc.spawn(move || {
            while !done_r.load(SeqCst) {
                std::thread::sleep(std::time::Duration::from_millis(200));
                let now = start.elapsed().as_millis() as u64;
                for s in slots.iter() {
                    let st = s.0.load(SeqCst);
                    if st > 0 && now + 1 > st + hang_ms {
                        let f = &fams_r[s.1.load(SeqCst) as usize];
                        let i = s.2.load(SeqCst);
                        report(metaid, argsr, &f.name, i, "the call did not return (no progress within the time limit)");
                        std::process::exit(1);
                    }
                }
            }
        });
        for (fi, fam) in fams.iter().enumerate() {
            if stop.load(SeqCst) {
                break;
            }
            let (lo, hi) = match &args.only {
                Some((n, i)) if *n == fam.name => (*i, i + 1),
                Some(_) => continue,
                None => (0, fam.count),
            };
            let next = AtomicU64::new(lo);
            let chunk = ((hi - lo) / (nthreads as u64 * 64)).clamp(1, 4096);
            fam_counts.push((fam.name.clone(), hi - lo));
            std::thread::scope(|s2| {
                for slot in slots.iter() {
                    let (next, stop, total, violation) = (&next, &stop, &total, &violation);
                    s2.spawn(move || {
                        let mut loc = Total::default();
                        'outer: loop {
                            let a = next.fetch_add(chunk, SeqCst);
                            if a >= hi {
                                break;
                            }
                            for i in a..(a + chunk).min(hi) {
                                // a violation at a smaller index may still be found
                                if stop.load(SeqCst) {
                                    let v = violation.lock().unwrap();
                                    if let Some((vf, vi, _)) = &*v {
                                        if (fi, i) > (*vf, *vi) {
                                            break 'outer;
                                        }
                                    }
                                }
                                slot.1.store(fi as u64, SeqCst);
                                slot.2.store(i, SeqCst);
                                slot.0.store(start.elapsed().as_millis() as u64 + 1, SeqCst);
                                let mut cx = Cx::new();
                                let r = catch_unwind(AssertUnwindSafe(|| (fam.run)(i, &mut cx)));
                                slot.0.store(0, SeqCst);
                                let res = match r {
                                    Ok(x) => x,
                                    Err(_) => Err(format!(
                                        "panic: {}",
                                        LAST_PANIC.with(|p| p.borrow().clone())
                                    )),
                                };
                                loc.evals += 1;
                                loc.transitions += cx.transitions;
                                loc.traces += cx.traces;
                                loc.ambiguous += cx.ambiguous;
                                if loc.states.len() < STATE_CAP / 4 {
                                    loc.states.extend(cx.states);
                                }
                                for o in cx.outcomes {
                                    *loc.outcomes.entry(o).or_default() += 1;
                                }
                                for (k, v) in cx.metrics {
                                    let e = loc.metrics.entry(k).or_insert(v);
                                    if v > *e {
                                        *e = v;
                                    }
                                }
                                if loc.samples.len() < 2 && (i == lo || i == (lo + hi) / 2) {
                                    if let Some(s) = cx.sample {
                                        loc.samples.push(format!("{}#{}: {}", fam.name, i, s));
                                    }
                                }
                                if let Err(m) = res {
                                    let mut v = violation.lock().unwrap();
                                    if v.as_ref().map_or(true, |x| (fi, i) < (x.0, x.1)) {
                                        *v = Some((fi, i, m));
                                    }
                                    stop.store(true, SeqCst);
                                }
                            }
                        }
                        let mut t = total.lock().unwrap();
                        t.evals += loc.evals;
                        t.transitions += loc.transitions;
                        t.traces += loc.traces;
                        t.ambiguous += loc.ambiguous;
                        if t.states.len() < STATE_CAP {
                            t.states.extend(loc.states);
                        }
                        for (k, v) in loc.outcomes {
                            *t.outcomes.entry(k).or_default() += v;
                        }
                        for (k, v) in loc.metrics {
                            let e = t.metrics.entry(k).or_insert(v);
                            if v > *e {
                                *e = v;
                            }
                        }
                        if t.samples.len() < 12 {
                            t.samples.extend(loc.samples);
                        }
                    });
                }
            });
        }
        done.store(true, SeqCst);
    });

    let t = total.into_inner().unwrap();
    let v = violation.into_inner().unwrap();
    let wall = start.elapsed().as_secs_f64();
    let mut samples: Vec<String> = t.samples.clone();
    samples.sort();
    let j = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"decisions_not_judged_ambiguous\": {},\n  \"rule\": {},\n  \"families\": {{{}}},\n  \"outcomes\": {{{}}},\n  \"metrics\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(meta.id),
        if args.tier == Tier::Quick { "\"quick\"" } else { "\"thorough\"" },
        args.seed,
        t.states.len(),
        t.transitions,
        t.traces,
        v.is_none() && args.only.is_none(),
        t.ambiguous,
        json_str(&format!("{} (every case index of every family is run; families lists how many)", meta.rule)),
        fam_counts.iter().map(|(k, n)| format!("{}: {}", json_str(k), n)).collect::<Vec<_>>().join(", "),
        common(&t.outcomes),
        t.metrics.iter().map(|(k, n)| format!("{}: {}", json_str(k), if n.is_finite() { format!("{:e}", n) } else { "null".into() })).collect::<Vec<_>>().join(", "),
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        meta.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        wall,
        if v.is_some() { 1 } else { 0 },
    );
    if args.only.is_none() {
        let p = format!("{}/evidence/{}.json", args.dir, meta.id);
        let _ = std::fs::create_dir_all(format!("{}/evidence", args.dir));
        if let Err(e) = std::fs::write(&p, j) {
            eprintln!("cannot write {}: {}", p, e);
            return 2;
        }
    }
    eprintln!(
        "{} {:?}: {} cases, {} distinct states, {} transitions, {} traces, {} ambiguous, {} outcomes, {:.1} s",
        meta.id, args.tier, t.evals, t.states.len(), t.transitions, t.traces, t.ambiguous, t.outcomes.len(), wall
    );
    if args.list_metrics {
        for (k, v) in &t.metrics {
            eprintln!("  metric {} = {:e}", k, v);
        }
        for (k, v) in &t.outcomes {
            eprintln!("  outcome {} = {}", k, v);
        }
    }
    if let Some((fi, i, m)) = v {
        report(meta.id, args, &fams[fi].name, i, &m);
        return 1;
    }
    0
}

fn report(id: &str, args: &Args, fam: &str, i: u64, msg: &str) {
    let tier = if args.tier == Tier::Quick { "quick" } else { "thorough" };
    let _ = std::fs::create_dir_all(format!("{}/out", args.dir));
    let p = format!("{}/out/replay-{}.json", args.dir, id);
    let j = format!(
        "{{\n \"property\": {},\n \"family\": {},\n \"case\": {},\n \"tier\": {},\n \"what\": {},\n \"replay_cmd\": {}\n}}\n",
        json_str(id), json_str(fam), i, json_str(tier), json_str(msg),
        json_str(&format!("bash run.sh {} {} '{}' {}", id, tier, fam, i)),
    );
    let _ = std::fs::write(&p, j);
    println!("{}: {} case {}: {}", id, fam, i, msg);
    println!("VIOLATION property={} replay={}", id, p);
}

/// Mixed-radix decoder: `pick(&mut i, n)` returns the next digit.
pub fn pick(i: &mut u64, n: usize) -> usize {
    let d = (*i % n as u64) as usize;
    *i /= n as u64;
    d
}
pub fn prod(ns: &[usize]) -> u64 {
    ns.iter().map(|x| *x as u64).product()
}
