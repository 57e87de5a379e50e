//! Command line, case loop, watchdog and reporting
use std::{
    io::Write,
    sync::atomic::Ordering::Relaxed,
    time::{Duration, Instant},
};

use serde_json::{json, Value};

use crate::{cx::*, ptrs::*, rng::*, *};

/// An engine runs one case with the `Ptr` type of the given number
pub struct Engine {
    pub name: &'static str,
    pub primary: Tags,
    /// which of the `Ptr` types it can use
    pub ptrs: &'static [usize],
    pub f: fn(&mut Cx, usize, &mut Rng) -> R,
}

macro_rules! disp {
    ($($path:ident)::+) => {
        |cx, p, rng| match p {
            0 => $($path)::+::<PA>(cx, rng),
            1 => $($path)::+::<PB>(cx, rng),
            2 => $($path)::+::<PC>(cx, rng),
            3 => $($path)::+::<PD>(cx, rng),
            4 => $($path)::+::<PE>(cx, rng),
            _ => $($path)::+::<PF>(cx, rng),
        }
    };
    ($m:ident::$f:ident, $($n:literal $p:ident),*) => {
        |cx, p, rng| match p {
            $($n => $m::$f::<$p>(cx, rng),)*
            _ => unreachable!(),
        }
    };
}

const ALLP: &[usize] = &[0, 1, 2, 3, 4, 5];

include!("engines.rs");

/// all properties at once, for development
pub const ALL: Tags = !0;

pub fn prop_tag(s: &str) -> Tags {
    if s == "ALL" {
        return ALL
    }
    1 << s.trim_start_matches('C').parse::<u32>().unwrap()
}

fn engine(name: &str) -> Option<&'static Engine> {
    ENGINES.iter().find(|e| e.name == name)
}

/// weights of the `Ptr` types
fn ptr_weights(prop: Tags) -> [u32; 6] {
    if prop == ALL {
        [4, 6, 3, 2, 2, 2]
    } else if prop & C16 != 0 {
        [1, 8, 5, 4, 1, 1]
    } else if prop & (C23 | C01) != 0 {
        [3, 5, 1, 3, 2, 1]
    } else {
        [4, 4, 3, 2, 2, 2]
    }
}

pub struct Case {
    pub engine: &'static Engine,
    pub ptr: usize,
    pub seed: u64,
}

impl Case {
    fn desc(&self) -> String {
        format!("{} {} {}", self.engine.name, self.ptr, self.seed)
    }
}

pub fn run_case(cx: &mut Cx, c: &Case) {
    cx.start_case(c.engine.primary);
    if cx.prop == ALL {
        cx.profile = 1 << (1 + c.seed % 25);
    }
    let mut rng = Rng::new(c.seed);
    let r = {
        let cx = &mut *cx;
        catch(|| (c.engine.f)(cx, c.ptr, &mut rng))
    };
    if let Err(m) = r {
        let t = cx.primary | cx.optags;
        let _ = cx.fail(t, true, format!("unexpected panic: {m}"));
    }
    if tok::take_runaway() {
        let t = C05 | C06 | C07 | cx.primary | cx.optags;
        let _ = cx.fail(t, true, "an operation does not stop comparing keys".into());
    }
    // what the destructors of an aborted case did belongs to the first failure
    let _ = cx.poll();
    if cx.fails.is_empty() {
        cx.ev(C09, "history_without_anomaly");
    }
    tok::reset();
    let _ = alloc::take_error();
}

fn cputime() -> f64 {
    let mut t = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}

fn watchdog(limit: f64, file: String) {
    std::thread::spawn(move || {
        let mut last = OPSEQ.load(Relaxed);
        let mut since = cputime();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let n = OPSEQ.load(Relaxed);
            let c = cputime();
            if n != last {
                last = n;
                since = c;
            } else if c - since > limit {
                let _ = std::fs::write(&file, format!("{:.1}", c - since));
                unsafe { libc::_exit(77) };
            }
        }
    });
}

pub struct Opt {
    prop: String,
    seed: u64,
    worker: u64,
    secs: f64,
    mincases: u64,
    maxcases: u64,
    thorough: bool,
    out: String,
    stdout: bool,
    only: Option<String>,
}

fn opts(a: &[String]) -> Opt {
    let mut o = Opt {
        prop: "C01".into(),
        seed: 1,
        worker: 0,
        secs: 5.0,
        mincases: 50,
        maxcases: u64::MAX,
        thorough: false,
        out: String::new(),
        stdout: false,
        only: None,
    };
    let mut i = 0;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--prop" => o.prop = v,
            "--seed" => o.seed = v.parse().unwrap(),
            "--worker" => o.worker = v.parse().unwrap(),
            "--secs" => o.secs = v.parse().unwrap(),
            "--mincases" => o.mincases = v.parse().unwrap(),
            "--maxcases" => o.maxcases = v.parse().unwrap(),
            "--thorough" => o.thorough = v == "1",
            "--out" => o.out = v,
            "--only" => o.only = Some(v),
            "--stdout" => {
                o.stdout = true;
                i += 1;
                continue
            }
            x => panic!("unknown option {x}"),
        }
        i += 2;
    }
    o
}

/// Runs the case again with tracing and returns the violation as JSON
fn violation(cx: &mut Cx, c: &Case, prop: &str) -> Value {
    let first: Vec<Fail> = cx.fails.clone();
    let f = first.iter().find(|f| f.tags & cx.prop != 0).unwrap().clone();
    let mut again = Cx::new(cx.prop, cx.thorough);
    again.tracing = true;
    run_case(&mut again, c);
    let confirmed = again.fails.iter().any(|g| g.tags & cx.prop != 0 && g.msg == f.msg);
    let n = again.log.len();
    let log: Vec<String> = if n > 400 {
        again.log[n - 400..].to_vec()
    } else {
        again.log.clone()
    };
    json!({
        "property": prop, "engine": c.engine.name, "ptr": PTR_NAMES[c.ptr], "ptr_no": c.ptr,
        "case_seed": c.seed.to_string(), "op": f.op, "message": f.msg, "tags": tag_names(f.tags),
        "reproduced": confirmed, "log": log, "thorough": cx.thorough,
        "serde_build": cfg!(feature = "serde"),
    })
}

fn run(o: Opt) -> i32 {
    let prop = prop_tag(&o.prop);
    let mut cx = Cx::new(prop, o.thorough);
    let mut plan: Vec<(&'static Engine, u32)> =
        plan(prop).iter().filter_map(|(n, w)| engine(n).map(|e| (e, *w))).collect();
    if let Some(only) = &o.only {
        let only: Vec<&str> = only.split(',').collect();
        plan.retain(|(e, _)| only.contains(&e.name));
        if plan.is_empty() {
            plan = only.iter().filter_map(|n| engine(n).map(|e| (e, 1))).collect();
        }
    }
    if plan.is_empty() {
        println!("no engine");
        return 3
    }
    let weights: Vec<u32> = plan.iter().map(|x| x.1).collect();
    let pw = ptr_weights(prop);
    let t0 = Instant::now();
    let cur = if o.stdout {
        None
    } else {
        watchdog(if o.thorough { 60.0 } else { 25.0 }, format!("{}/w{}.hang", o.out, o.worker));
        Some(std::fs::File::create(format!("{}/w{}.cur", o.out, o.worker)).unwrap())
    };
    let base = mix2(mix2(o.seed, prop as u64), o.worker);
    let mut violations = vec![];
    let mut k = 0u64;
    let mut one_sample = 0u64;
    while k < o.maxcases
        && ((t0.elapsed().as_secs_f64() < o.secs)
            || (k < o.mincases && t0.elapsed().as_secs_f64() < o.secs * 4.0))
    {
        let seed = mix2(base, k);
        let mut rng = Rng::new(seed ^ 0x55);
        let e = plan[rng.weighted(&weights)].0;
        let w: Vec<u32> = e.ptrs.iter().map(|i| pw[*i]).collect();
        let ptr = e.ptrs[rng.weighted(&w)];
        let c = Case {
            engine: e,
            ptr,
            seed,
        };
        if let Some(f) = &cur {
            use std::os::unix::fs::FileExt;
            let _ = f.write_at(format!("{:<80}\n", c.desc()).as_bytes(), 0);
        }
        // a few cases are written out for the evidence
        cx.tracing = one_sample < 2 && k % 37 == 36;
        let ops0 = cx.st.ops;
        run_case(&mut cx, &c);
        if cx.tracing {
            cx.tracing = false;
            if cx.relevant > 0 && cx.log.len() > 2 {
                one_sample += 1;
                let l: Vec<&String> = cx.log.iter().take(12).collect();
                let s = format!(
                    "{} {} seed {}: {} ops, {} relevant events: {}",
                    e.name,
                    PTR_NAMES[ptr],
                    seed,
                    cx.st.ops - ops0,
                    cx.relevant,
                    l.iter().map(|x| x.as_str()).collect::<Vec<_>>().join("; ")
                );
                cx.st.samples.push(s);
            }
        }
        k += 1;
        cx.st.cases += 1;
        *cx.st.per_engine.entry(format!("{}/{}", e.name, PTR_NAMES[ptr])).or_insert(0) += 1;
        if cx.fails.iter().any(|f| f.tags & prop != 0) {
            violations.push(violation(&mut cx, &c, &o.prop));
            break
        } else if let Some(f) = cx.fails.first() {
            let m: String = f.msg.chars().filter(|c| !c.is_ascii_digit()).take(90).collect();
            let key = format!("{}: {m}", tag_names(f.tags).join(","));
            if cx.st.foreign.len() < 30 || cx.st.foreign.contains_key(&key) {
                *cx.st.foreign.entry(key).or_insert(0) += 1;
            }
        }
        if cx.relevant > 0 && cx.st.nontrivial.len() < 400_000 {
            let f = mix2(cx.fp, h(&(e.name, ptr)));
            cx.st.nontrivial.insert(f);
        }
    }
    let st = &cx.st;
    let res = json!({
        "worker": o.worker, "serde_build": cfg!(feature = "serde"),
        "cases": st.cases, "ops": st.ops, "monitor_evaluations": st.evals,
        "monitor_evaluations_all": st.evals_all,
        "events": st.events, "per_engine": st.per_engine, "foreign": st.foreign,
        "states": st.states.len(), "nontrivial": st.nontrivial.len(),
        "samples": st.samples, "violations": violations,
        "allocs": alloc::ALLOCS.load(Relaxed), "deallocs": alloc::DEALLOCS.load(Relaxed),
        "wall_s": t0.elapsed().as_secs_f64(),
    });
    if o.stdout {
        println!("RESULT {res}");
    } else {
        let bin = |name: &str, s: &std::collections::HashSet<u64>| {
            let mut v = Vec::with_capacity(s.len() * 8);
            for x in s {
                v.extend_from_slice(&x.to_le_bytes());
            }
            std::fs::write(format!("{}/w{}.{name}", o.out, o.worker), v).unwrap();
        };
        bin("fp", &st.nontrivial);
        bin("st", &st.states);
        std::fs::write(format!("{}/w{}.json", o.out, o.worker), res.to_string()).unwrap();
    }
    0
}

/// replay PROP THOROUGH ENGINE PTR SEED [TRACEFILE]
fn replay(a: &[String]) -> i32 {
    let prop = prop_tag(&a[0]);
    let mut cx = Cx::new(prop, a[1] == "1");
    cx.tracing = true;
    if let Some(f) = a.get(5) {
        cx.trace = Some(std::fs::File::create(f).unwrap());
    }
    let c = Case {
        engine: engine(&a[2]).expect("engine"),
        ptr: a[3].parse().unwrap(),
        seed: a[4].parse().unwrap(),
    };
    run_case(&mut cx, &c);
    if a.get(5).is_none() {
        for l in &cx.log {
            println!("{l}");
        }
    }
    let mut hit = false;
    for f in &cx.fails {
        println!("FAIL op {} {:?}: {}", f.op, tag_names(f.tags), f.msg);
        hit |= f.tags & prop != 0;
    }
    let _ = std::io::stdout().flush();
    hit as i32
}

pub fn main() -> i32 {
    install_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("run") => run(opts(&a[1..])),
        Some("replay") => replay(&a[1..]),
        Some("engines") => {
            for e in ENGINES {
                println!("{} {:?}", e.name, tag_names(e.primary));
            }
            0
        }
        _ => {
            eprintln!("usage: mon run|replay ...");
            3
        }
    }
}
