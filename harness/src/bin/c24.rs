//! C24: convergence requires both the absolute and the relative change to be small
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use settlab::case::*;
use settlab::must;
use settlab::rt::*;
use sett_rs::types::ConvergenceTolerance;

/// Numbers as text, as JSON has no infinities
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    old: String,
    new: String,
    abs: String,
    rel: String,
}

fn num(s: &str) -> f64 {
    s.parse().expect("a number")
}

fn case(old: f64, new: f64, abs: f64, rel: f64) -> Case {
    let s = |x: f64| format!("{x:?}");
    Case { old: s(old), new: s(new), abs: s(abs), rel: s(rel) }
}

fn converged(c: &Case, obs: &mut Obs) -> Verdict {
    let (old, new, abs, rel) = (num(&c.old), num(&c.new), num(&c.abs), num(&c.rel));
    let got = ConvergenceTolerance { abs, rel }.is_converged(old, new);
    must!(
        got == ConvergenceTolerance::new(abs, rel).is_converged(old, new),
        "the two ways to make a tolerance differ"
    );
    if !old.is_finite() || !new.is_finite() {
        must!(!got, "{old} and {new} count as converged");
        obs.label("not finite");
        return Ok(());
    }
    // Exact when nothing is rounded; otherwise the limits themselves are left open
    let d = (new - old).abs();
    let exact = new - d == old || old - d == new || new + d == old || old + d == new;
    let slack = if exact { 0. } else { 4. * f64::EPSILON };
    let ratio = d / old.abs();
    let small = |x: f64, limit: f64, slack: f64| -> Option<bool> {
        if x < limit * (1. - slack) {
            Some(true)
        } else if !(x < limit * (1. + slack)) {
            Some(false)
        } else {
            None
        }
    };
    let a = small(d, abs, slack);
    // The quotient is rounded unless it is exact
    let r = small(ratio, rel, if ratio * old.abs() == d && slack == 0. { f64::EPSILON } else { 8. * f64::EPSILON });
    let want = match (a, r) {
        (Some(true), Some(true)) => true,
        (Some(false), _) | (_, Some(false)) => false,
        _ => {
            obs.label("too close to the limit");
            return Ok(());
        }
    };
    must!(got == want, "{old:?} and {new:?} with limits {abs:?} (absolute) and {rel:?} (relative): {got} instead of {want}");
    obs.label(format!("absolute {}, relative {}", a == Some(true), r == Some(true)));
    if a != r || want {
        obs.nontrivial();
    }
    Ok(())
}

fn main() {
    let sign = || prop_oneof![Just(1.), Just(-1.)];
    let near = move || {
        (lg(1e-100, 1e100), sign(), lg(1e-15, 1e3), sign(), lg(0.01, 100.), lg(0.01, 100.))
            .prop_map(|(old, s, d, s2, a, r): (f64, f64, f64, f64, f64, f64)| {
                let (old, d) = (old * s, d * s2);
                let new = old + old * d;
                case(old, new, (old * d).abs() * a, d.abs() * r)
            })
            .boxed()
    };
    // Small integers and powers of two, where everything is exact
    let exact = || {
        ((-64i32..65), (-64i32..65), 0i32..40, -6i32..4, -20i32..20)
            .prop_map(|(old, new, abs, rel, scale)| {
                let k = 2f64.powi(scale);
                case(f64::from(old) * k, f64::from(new) * k, f64::from(abs) * k, 2f64.powi(rel))
            })
            .boxed()
    };
    let special = || {
        let x = || {
            prop_oneof![
                Just(0.),
                Just(-0.),
                Just(f64::INFINITY),
                Just(f64::NEG_INFINITY),
                Just(f64::NAN),
                Just(1.),
                lg(1e-3, 1e6)
            ]
        };
        let t = || prop_oneof![Just(0.), Just(f64::INFINITY), Just(1.), lg(1e-12, 1e3)];
        (x(), x(), t(), t()).prop_map(|(o, n, a, r)| case(o, n, a, r)).boxed()
    };
    Check::new(
        "C24",
        "Random values and limits; non-trivial when the values converge or exactly one of the two criteria holds.",
    )
    .leg("near", 600_000, 20_000_000, near, converged)
    .leg("exact", 400_000, 10_000_000, exact, converged)
    .leg("special", 100_000, 2_000_000, special, converged)
    .run()
}
