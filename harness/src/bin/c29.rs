//! C29: runs are reproducible and independent of each other
use std::collections::HashMap;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::{Arc, Barrier};

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sett_rs::api::{run_engine, RunResults};
use sett_rs::Config;
use settlab::case::*;
use settlab::conf::{self, engine_node, write, FORMATS};
use settlab::must;
use settlab::rt::*;

/// How an engine is run
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq, Hash)]
enum Via {
    /// Engine::run with new components
    Fresh,
    /// Engine::run with the components of a run of another engine that only differs in its conditions
    Reused,
    /// run_engine with a configuration in one of the formats
    Config(usize),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct History {
    engines: Vec<EngineCase>,
    /// Engine and how it is run
    ops: Vec<(usize, Via)>,
}

/// What may differ between related engines
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Twist {
    Pressure(f64),
    Source(f64),
    Sink(f64),
    Speed(f64),
    Size(f64),
    Resolution(u32),
    Gas,
    Solver,
    Wall,
    Kinds,
}

fn twist(case: &EngineCase, t: Twist) -> EngineCase {
    let mut c = case.clone();
    match t {
        Twist::Pressure(k) => c.p0 *= k,
        Twist::Source(k) => c.t_source = c.t_sink + (c.t_source - c.t_sink) * k,
        Twist::Sink(k) => c.t_sink *= k,
        Twist::Speed(k) => c.drive = scale_drive(&c.drive, 1., k),
        Twist::Size(k) => c.drive = scale_drive(&c.drive, k, 1.),
        Twist::Resolution(n) => c.set.resolution = n,
        Twist::Gas => {
            c.fluid = match c.fluid {
                FluidSpec::Helium => FluidSpec::Hydrogen,
                _ => FluidSpec::Helium,
            }
        }
        Twist::Solver => {
            c.solver = match c.solver {
                Solver::Lu => Solver::Qr,
                _ => Solver::Lu,
            }
        }
        Twist::Wall => std::mem::swap(&mut c.r_c, &mut c.r_e),
        Twist::Kinds => std::mem::swap(&mut c.chx.kind, &mut c.hhx.kind),
    }
    c
}

fn twists() -> BoxedStrategy<Twist> {
    prop_oneof![
        3 => lg(0.2, 5.).prop_map(Twist::Pressure),
        3 => (0.5f64..1.5).prop_map(Twist::Source),
        2 => (0.9f64..1.1).prop_map(Twist::Sink),
        2 => lg(0.5, 2.).prop_map(Twist::Speed),
        2 => lg(0.5, 2.).prop_map(Twist::Size),
        2 => (2u32..60).prop_map(Twist::Resolution),
        1 => Just(Twist::Gas),
        2 => Just(Twist::Solver),
        1 => Just(Twist::Wall),
        1 => Just(Twist::Kinds),
    ]
    .boxed()
}

fn history(reuse: bool) -> BoxedStrategy<History> {
    let o = Opts { acc: Acc::Any, virial: false, fourier: false, ..Opts::default() };
    let via = prop_oneof![
        4 => Just(Via::Fresh),
        (if reuse { 4 } else { 1 }) => Just(Via::Reused),
        2 => (0usize..3).prop_map(Via::Config),
    ];
    (
        engine(o),
        engine(o),
        prop::collection::vec((any::<bool>(), twists()), 1..4),
        prop::collection::vec((0usize..5, via), 3..9),
    )
        .prop_map(|(a, b, tw, mut ops)| {
            let mut engines = vec![a, b];
            for (second, t) in tw {
                let e = twist(&engines[usize::from(second)], t);
                engines.push(e);
            }
            // Every history runs some engine at least twice
            let n = engines.len();
            for (i, _) in &mut ops {
                *i %= n;
            }
            let first = ops[0];
            ops.push(first);
            // Not too long
            for e in &mut engines {
                e.set.max_inner = e.set.max_inner.min(60);
                e.set.max_outer = e.set.max_outer.min(25);
            }
            History { engines, ops }
        })
        .boxed()
}

fn results(r: Result<RunResults, sett_rs::types::RunError>) -> String {
    match r {
        Ok(r) => format!("{r:?}"),
        Err(e) => error_name(&e).to_string(),
    }
}

/// Run one engine; the outcome and its part that configurations give
fn op(h: &History, i: usize, via: Via) -> (String, bool) {
    let case = &h.engines[i];
    match via {
        Via::Fresh => {
            let r = case.run();
            let ok = r.is_ok();
            (outcome(r), ok)
        }
        Via::Reused => {
            let mut other = case.clone();
            other.p0 *= 1.3;
            other.t_source = other.t_sink + 0.8 * (other.t_source - other.t_sink);
            let r = match other.run() {
                Ok(e) => case.run_with(e.components),
                Err(_) => case.run(),
            };
            let ok = r.is_ok();
            (outcome(r), ok)
        }
        Via::Config(f) => {
            let text = write(&engine_node(case, 0, false, i as u64), FORMATS[f]);
            let config: Config = conf::read(&text, FORMATS[f]).unwrap_or_else(|e| panic!("{e}\n{text}"));
            let r = run_engine(config);
            let ok = r.is_ok();
            (results(r), ok)
        }
    }
}

/// Outcomes that are comparable have the same kind: complete, or the results alone
fn kind(via: Via) -> u8 {
    match via {
        Via::Fresh | Via::Reused => 0,
        Via::Config(_) => 1,
    }
}

fn short(s: &str) -> &str {
    s.get(..s.len().min(600)).unwrap_or(s)
}

fn sequence(h: &History, obs: &mut Obs) -> Verdict {
    let mut seen: HashMap<(usize, u8), (String, usize, Via)> = HashMap::new();
    let mut repeated = 0;
    for (n, (i, via)) in h.ops.iter().enumerate() {
        let (got, ok) = op(h, *i, *via);
        match seen.get(&(*i, kind(*via))) {
            None => {
                seen.insert((*i, kind(*via)), (got, n, *via));
            }
            Some((want, m, before)) => {
                repeated += usize::from(ok);
                if *before != *via {
                    obs.label(format!("{before:?} then {via:?}"));
                }
                must!(
                    got == *want,
                    "engine {i} gives other results as run {n} ({via:?}) than as run {m} ({before:?})\n{}\n{}",
                    short(&got),
                    short(want)
                );
            }
        }
    }
    if repeated > 0 {
        obs.nontrivial();
    }
    obs.label(format!("{repeated} repeated"));
    Ok(())
}

fn threads(h: &History, obs: &mut Obs) -> Verdict {
    let n = 3;
    let h = Arc::new(h.clone());
    let barrier = Arc::new(Barrier::new(n));
    let handles: Vec<_> = (0..n)
        .map(|k| {
            let (h, barrier) = (h.clone(), barrier.clone());
            std::thread::spawn(move || {
                guard(|| {
                    barrier.wait();
                    let m = h.ops.len();
                    // Every thread runs the same engines, starting with another one
                    (0..m)
                        .map(|j| {
                            let at = (j + k * m / n) % m;
                            let (i, via) = h.ops[at];
                            (at, op(&h, i, via))
                        })
                        .collect::<HashMap<usize, (String, bool)>>()
                })
            })
        })
        .collect();
    let mut all = Vec::new();
    for handle in handles {
        match handle.join().expect("guarded") {
            Ok(x) => all.push(x),
            Err((at, msg)) => return Err(format!("panic on a thread at {at}: {msg}")),
        }
    }
    let mut converged = 0;
    for (at, (i, via)) in h.ops.iter().enumerate() {
        let (want, ok) = &all[0][&at];
        converged += usize::from(*ok);
        for other in &all[1..] {
            let (got, _) = &other[&at];
            must!(
                got == want,
                "engine {i} ({via:?}) gives other results on another thread\n{}\n{}",
                short(got),
                short(want)
            );
        }
    }
    if converged > 0 {
        obs.nontrivial();
    }
    Ok(())
}

fn child() -> ! {
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).expect("input");
    let h: History = serde_json::from_str(&text).expect("history");
    let out: Vec<String> = h.ops.iter().map(|(i, via)| op(&h, *i, *via).0).collect();
    println!("{}", serde_json::to_string(&out).expect("text"));
    std::process::exit(0);
}

fn processes(h: &History, obs: &mut Obs) -> Verdict {
    let exe = std::env::current_exe().expect("own path");
    let mut reversed = h.clone();
    reversed.ops.reverse();
    let run = |h: &History| -> Result<Vec<String>, String> {
        let mut process = Command::new(&exe)
            .arg("--child")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("child starts");
        let mut pipe = process.stdin.take().expect("pipe");
        pipe.write_all(serde_json::to_string(h).expect("text").as_bytes()).expect("child reads");
        drop(pipe);
        let out = process.wait_with_output().expect("child ends");
        must!(out.status.success(), "a process that runs the engines ends with {:?}", out.status);
        Ok(serde_json::from_slice(&out.stdout).expect("outcomes"))
    };
    let a = run(h)?;
    let mut b = run(&reversed)?;
    b.reverse();
    for (n, (i, via)) in h.ops.iter().enumerate() {
        let (got, ok) = op(h, *i, *via);
        if ok {
            obs.nontrivial();
        }
        for (name, other) in [("this order", &a[n]), ("reverse order", &b[n])] {
            must!(
                got == *other,
                "engine {i} ({via:?}) gives other results in a process of its own in {name}\n{}\n{}",
                short(&got),
                short(other)
            );
        }
    }
    Ok(())
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--child") {
        child();
    }
    Check::new(
        "C29",
        "Histories of 4 to 10 runs of 3 to 5 random engines, some of which differ in one respect only; each engine is run with new components, with components used before, or from a configuration. Outcomes are compared bit by bit with the first run of the engine (sequence), with threads running the same engines in other orders (threads) and with processes of their own (processes). Non-trivial: a converging engine is run more than once.",
    )
    .leg("sequence", 350, 12000, || history(true), sequence)
    .leg("threads", 120, 3000, || history(false), threads)
    .leg("processes", 100, 2000, || history(false), processes)
    .run()
}
