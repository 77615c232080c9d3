//! C08: iteration limits are honoured and failures are reported by loop
use std::cell::Cell;
use std::rc::Rc;

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use settlab::case::*;
use settlab::parts::*;
use settlab::phys::*;
use settlab::rt::*;
use settlab::must;
use sett_rs::types::RunError;
use sett_rs::Components;

/// Approaches that are settled after a known number of evaluations
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Script {
    case: EngineCase,
    /// Evaluations that still change something, for each exchanger; none at all when `endless`
    steps: [usize; 3],
    step: f64,
    endless: bool,
    max_outer: usize,
    more: usize,
}

fn script() -> BoxedStrategy<Script> {
    let o = Opts { cond: false, losses: false, res: Res::Small, ..Opts::default() };
    (engine(o), [0usize..9, 0usize..9, 0usize..9], 0.5f64..3., 0u32..5, 0usize..14, 0usize..20)
        .prop_map(|(mut case, steps, step, e, max_outer, more)| {
            case.set.inner = (1e-2, 1e-4);
            case.set.outer = (1e-2, 1e-4);
            case.set.ode = (1e-6, 1e-6);
            case.set.max_inner = 200;
            Script { case, steps, step, endless: e == 0, max_outer, more }
        })
        .boxed()
}

/// Hundreds of outer iterations with small steps
fn long_script() -> BoxedStrategy<Script> {
    (script(), 10usize..300, -2isize..3)
        .prop_map(|(mut s, steps, around)| {
            s.steps = [steps; 3];
            s.step *= 0.02;
            s.max_outer = (steps + 1).saturating_add_signed(around);
            s.case.set.inner = (2e-3, 3e-4);
            s.case.set.ode = (1e-6, 1e-6);
            s.case.set.outer = (5e-3, 1e-3);
            s.case.set.resolution = 6;
            s
        })
        .boxed()
}

impl Script {
    /// Approach after `n` evaluations
    fn at(&self, which: usize, n: usize) -> f64 {
        let base = [self.case.chx, self.case.regen, self.case.hhx][which].fixed();
        if self.endless {
            base + self.step * (n % 2) as f64
        } else {
            base + self.step * n.min(self.steps[which]) as f64
        }
    }
    fn cold(&self, n: usize) -> f64 {
        self.case.t_sink + self.at(0, n)
    }
    /// Which evaluation a temperature belongs to; `None` when no evaluation can tell
    fn run(&self, max_outer: usize) -> (Result<Eng, RunError>, usize) {
        // Only the cold exchanger's temperature changes in every evaluation, so that it counts them
        let calls = Rc::new(Cell::new(0usize));
        let make = |which: usize, spec: HxSpec| {
            let me = self.clone();
            let calls = calls.clone();
            // The approach is a function of the temperatures the exchanger is shown
            let next = move |seen: &Seen| {
                let n = match which {
                    0 => me.index(|n| me.cold(n), seen.hxr.temp),
                    1 => me.index(|n| me.cold(n), seen.a),
                    _ => me.index(|n| me.case.t_source - me.at(2, n), seen.hxr.temp),
                };
                if which == 1 {
                    calls.set(calls.get() + 1);
                }
                me.at(which, n + 1)
            };
            let hx = Hx::new(spec.vol, 0., self.at(which, 0), next);
            hx.budget.set(20 * max_outer + 100);
            hx
        };
        let case = &self.case;
        let components = Components {
            ws: case.ws(),
            chx: Box::new(make(0, case.chx)),
            regen: Box::new(make(1, case.regen)),
            hhx: Box::new(make(2, case.hhx)),
        };
        let mut set = case.set;
        set.max_outer = max_outer;
        let r = run_solver(case.solver, components, case.fluid.make(), case.inputs(), set.make());
        (r, calls.get())
    }
    /// Last evaluation whose temperature is the given one
    fn index(&self, temp: impl Fn(usize) -> f64, t: f64) -> usize {
        let last = if self.endless { 1 } else { *self.steps.iter().max().unwrap() };
        let mut best = (f64::MAX, 0);
        for n in 0..=last {
            let d = (temp(n) - t).abs();
            if d < best.0 - 1e-7 {
                best = (d, n);
            }
        }
        best.1
    }
}

fn outer(s: &Script, obs: &mut Obs) -> Verdict {
    // All exchangers need the same number of evaluations for the index to be known to each of them
    let mut s = s.clone();
    let n = s.steps[0];
    s.steps = [n; 3];
    // The inner loop must be able to converge at all of these temperatures
    if s.run(1000.min(3 * n + 10)).0.is_err_and(|e| matches!(e, RunError::InnerLoop)) {
        obs.label("inner loop fails");
        return Ok(());
    }
    // Evaluation n + 1 is the first to confirm the temperatures
    let needed = n + 1;
    let (r, calls) = guard(|| s.run(s.max_outer)).map_err(|(_, m)| m)?;
    must!(
        calls <= s.max_outer,
        "approaches are evaluated {calls} times with a limit of {}",
        s.max_outer
    );
    match (&r, !s.endless && s.max_outer >= needed) {
        (Ok(_), true) => {}
        (Err(RunError::OuterLoop), false) => {}
        (Ok(_), false) => return Err(format!(
            "run succeeds with {} outer iterations although {} are needed (endless: {})",
            s.max_outer, needed, s.endless
        )),
        (Err(e), ok) => return Err(format!(
            "run fails with {} with {} of {needed} outer iterations (success expected: {ok})",
            error_name(e), s.max_outer
        )),
    }
    obs.label(if r.is_ok() { "converges" } else { "limit reached" });
    if s.endless {
        obs.label("endless");
    }
    if s.max_outer.abs_diff(needed) <= 1 {
        obs.label("next to the limit");
    }
    obs.nontrivial();
    if let Ok(e) = r {
        must!(calls == needed, "approaches are evaluated {calls} times instead of {needed}");
        let want = fingerprint(&e);
        for limit in [needed, needed + s.more] {
            match s.run(limit).0 {
                Ok(e) => must!(fingerprint(&e) == want, "results with {limit} outer iterations differ from those with {}", s.max_outer),
                Err(e) => return Err(format!("run fails ({}) with {limit} outer iterations", error_name(&e))),
            }
        }
    }
    Ok(())
}

/// Least and largest number of cycles until convergence according to an independent solution, and whether it
/// settles within the limit at all
fn reference_count(case: &EngineCase, limit: usize) -> Option<(usize, usize)> {
    let fluid = case.fluid.make();
    let t = temps(case.t_sink, case.t_source, case.chx.fixed(), case.regen.fixed(), case.hhx.fixed());
    let m = Model::of_case(case, &fluid, t);
    let mut ic = [case.p0, t.k, t.l];
    let mut first = None;
    for n in 1..=limit {
        let end = *m.integrate(&[0., m.period], ic, 1e-9, 40_000)?.last()?;
        // Whether the changes are certainly, or possibly, within the tolerances
        let (mut sure, mut maybe) = (true, true);
        for i in [1, 2] {
            let d = (end[i] - ic[i]).abs();
            for (d, tol, error) in [(d, case.set.inner.0, 1e-6 * ic[i]), (d / ic[i], case.set.inner.1, 1e-6)] {
                let unsure = 0.05 * tol + error;
                sure &= d < tol - unsure;
                maybe &= d < tol + unsure;
            }
        }
        if maybe && first.is_none() {
            first = Some(n);
        }
        if sure {
            return first.map(|first| (first, n));
        }
        ic = [case.p0, end[1], end[2]];
    }
    None
}

fn inner(input: &(EngineCase, usize), obs: &mut Obs) -> Verdict {
    settle(input, 60, obs)
}

fn slow(input: &(EngineCase, usize), obs: &mut Obs) -> Verdict {
    settle(input, 1500, obs)
}

fn settle(input: &(EngineCase, usize), most: usize, obs: &mut Obs) -> Verdict {
    let (case, more) = input;
    let mut case = case.clone();
    case.set.max_outer = 3;
    let run = |max_inner: usize| {
        let mut case = case.clone();
        case.set.max_inner = max_inner;
        let mut probe = Probe::new(case.ws());
        probe.max_cycles = max_inner + 3;
        let cycles = probe.cycles.clone();
        let mut parts = case.components();
        parts.ws = Box::new(probe);
        let r = guard(|| case.run_with(parts)).map_err(|(_, m)| m)?;
        Ok::<_, String>((r, cycles.get()))
    };
    let Some((least, needed)) = reference_count(&case, most) else {
        obs.label("reference doesn't settle");
        return Ok(());
    };
    let (r, _) = run(most)?;
    let e = match r {
        Ok(e) => e,
        Err(e) => {
            // The gas model may be irregular on the way or the integrator may fail
            if run(2 * most)?.0.is_err() && needed < 40 {
                obs.label("not converged");
                return Ok(());
            }
            return Err(format!("fails ({}) with {most} inner iterations of which {needed} are needed", error_name(&e)));
        }
    };
    if !case.regular(&e) {
        obs.label("skipped: irregular");
        return Ok(());
    }
    let want = fingerprint(&e);
    obs.nontrivial();
    obs.max("cycles needed", needed as f64);
    obs.label(if least == needed { "reference is sure" } else { "reference is sure of a range" });
    obs.label(format!("needs {} cycles", match needed {
        0..=4 => needed.to_string(),
        5..=59 => "5 or more".into(),
        60..=199 => "60 or more".into(),
        _ => "200 or more".into(),
    }));
    for limit in [needed, needed + more] {
        match run(limit)?.0 {
            Ok(e) => must!(fingerprint(&e) == want, "results differ with {limit} inner iterations"),
            Err(e) => return Err(format!("fails ({}) with {limit} inner iterations of which {needed} are needed", error_name(&e))),
        }
    }
    for limit in [least - 1, (least - 1) / 2] {
        let (r, cycles) = run(limit)?;
        match r {
            Ok(_) => return Err(format!("succeeds with {limit} inner iterations although {least} are needed")),
            Err(RunError::InnerLoop) => {}
            Err(e) => return Err(format!("{} is reported although the inner loop fails", error_name(&e))),
        }
        must!(cycles <= limit, "{cycles} cycles are calculated with a limit of {limit}");
    }
    Ok(())
}

fn budget(input: &(EngineCase, usize, usize), obs: &mut Obs) -> Verdict {
    let (case, a, b) = input;
    let run = |max_inner: usize, max_outer: usize| {
        let mut case = case.clone();
        case.set.max_inner = max_inner;
        case.set.max_outer = max_outer;
        case.run()
    };
    must!(matches!(run(10, 0), Err(RunError::OuterLoop)), "no outer iteration is allowed, but that isn't the error");
    must!(matches!(run(0, 1 + b), Err(RunError::InnerLoop)), "no inner iteration is allowed, but that isn't the error");
    let Ok(e) = run(120, 60) else {
        obs.label("not converged");
        return Ok(());
    };
    case.labels(obs);
    let want = fingerprint(&e);
    let small = run(*a, *b);
    obs.nontrivial();
    obs.label(match &small {
        Ok(_) => "converges with the smaller limits",
        Err(RunError::InnerLoop) => "inner loop fails",
        Err(RunError::OuterLoop) => "outer loop fails",
    });
    if let Ok(e) = &small {
        must!(fingerprint(e) == want, "results change when limits are raised from ({a}, {b}) to (120, 60)");
        for (x, y) in [(a + 1, *b), (*a, b + 1), (a + 9, b + 9)] {
            match run(x, y) {
                Ok(e) => must!(fingerprint(&e) == want, "results change when limits are raised from ({a}, {b}) to ({x}, {y})"),
                Err(e) => return Err(format!("fails ({}) when limits are raised from ({a}, {b}) to ({x}, {y})", error_name(&e))),
            }
        }
    }
    // Each limit alone explains the failure of its own loop
    if let Err(RunError::OuterLoop) = small {
        must!(
            !matches!(run(*a, 60), Err(RunError::OuterLoop)),
            "the outer loop fails with 60 iterations, but not with more inner ones"
        );
        must!(matches!(run(120, *b), Err(RunError::OuterLoop)), "more inner iterations repair the outer loop");
    }
    if let Err(RunError::InnerLoop) = small {
        must!(matches!(run(*a, 60), Err(RunError::InnerLoop)), "more outer iterations repair the inner loop");
        must!(
            !matches!(run(120, *b), Err(RunError::InnerLoop)),
            "the inner loop fails with 120 iterations"
        );
    }
    Ok(())
}

fn main() {
    let fixed = Opts { cond: false, losses: false, res: Res::Small, ..Opts::default() };
    let any = Opts { res: Res::Small, ..Opts::default() };
    Check::new(
        "C08",
        "Engines with scripted approaches, engines whose number of inner iterations is known from an independent solution, and random engines with random limits. Non-trivial when the number of iterations needed is known and the run's outcome with the limit is checked against it.",
    )
    .leg("outer", 1500, 40000, script, outer)
    .leg(
        "inner",
        2500,
        60000,
        move || {
            (engine(fixed), 0usize..30, lg(1e-5, 1e-2), prop_oneof![1 => lg(1., 100.), 4 => lg(100., 2000.)])
                .prop_map(|(mut c, more, rel, k)| {
                    c.set.inner = (rel * k, rel);
                    c.set.ode = (1e-9, 1e-9);
                    (c, more)
                })
                .boxed()
        },
        inner,
    )
    .leg(
        "slow",
        1200,
        30000,
        move || {
            // Much more gas in the spaces than is moved, so that they take many cycles to settle
            (engine(Opts { rhombic: false, fourier: false, ..fixed }), 0usize..400, lg(1e-5, 1e-3), lg(200., 2000.), lg(4., 60.), lg(0.02, 60.))
                .prop_map(|(mut c, more, rel, k, x, y)| {
                    if let DriveSpec::Sin { vsc, vcc, vse, vce, .. } = &mut c.drive {
                        *vcc = *vsc * x;
                        *vce = *vse * y;
                    }
                    c.set.inner = (rel * k, rel);
                    c.set.ode = (1e-9, 1e-9);
                    c.set.resolution = 6;
                    (c, more)
                })
                .boxed()
        },
        slow,
    )
    .leg("outer long", 120, 3000, long_script, outer)
    .leg(
        "budget",
        1500,
        40000,
        move || {
            (engine(any), 0usize..16, 0usize..8)
                .prop_map(|(mut c, a, b)| {
                    c.set.inner = (1e-2, 1e-4);
                    c.set.outer = (1e-1, 1e-3);
                    c.set.ode = (1e-7, 1e-6);
                    (c, a, b)
                })
                .boxed()
        },
        budget,
    )
    .run()
}
