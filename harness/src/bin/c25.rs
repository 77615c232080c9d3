//! C25: the time resolution only changes how finely the cycle is sampled
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use settlab::case::*;
use settlab::must;
use settlab::pairs::*;
use settlab::rt::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Pair {
    engine: EngineCase,
    /// Common intervals and the intervals each of them is divided into
    common: u32,
    a: u32,
    b: u32,
}

fn sampled(c: &Pair, obs: &mut Obs) -> Verdict {
    let with = |k: u32| {
        let mut case = c.engine.clone();
        case.set.resolution = c.common * k + 1;
        case.run()
    };
    let (a, b) = match (with(c.a), with(c.b)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(a), Err(b)) => {
            obs.label("not converged");
            must!(error_name(&a) == error_name(&b), "the error of the run depends on the resolution");
            return Ok(());
        }
        (Ok(e), Err(_)) | (Err(_), Ok(e)) => {
            if !c.engine.regular(&e) {
                obs.label("not regular");
                return Ok(());
            }
            return Err("the run only converges at one of two resolutions".into());
        }
    };
    must!(
        a.state.temp == b.state.temp,
        "temperatures are {:?} at one and {:?} at another resolution",
        a.state.temp,
        b.state.temp
    );
    let (a, b) = (Flat::of(&c.engine, a), Flat::of(&c.engine, b));
    if !a.regular || !b.regular {
        obs.label("not regular");
        return Ok(());
    }
    obs.nontrivial();
    c.engine.labels(obs);
    let pairs: Vec<(usize, usize)> =
        (0..=c.common).map(|i| ((i * c.a) as usize, (i * c.b) as usize)).collect();
    for (f, k) in [(&a, c.a), (&b, c.b)] {
        must!(
            f.time.len() == (c.common * k + 1) as usize,
            "{} points are reported at a resolution of {}",
            f.time.len(),
            c.common * k + 1
        );
    }
    for &(i, j) in &pairs {
        let (x, y) = (a.time[i], b.time[j]);
        must!((x - y).abs() <= 1e-9 * a.time[a.time.len() - 1], "common time {x:e} is {y:e} at the other resolution");
    }
    // Interpolated at times that are only rounded differently
    a.agrees(&b, Some(&pairs), 1e-9, 1e-8, false, obs)
}

fn averages(c: &Pair, obs: &mut Obs) -> Verdict {
    let run = |n: u32| {
        let mut case = c.engine.clone();
        case.set.resolution = n + 1;
        case.run().map(|e| Flat::of(&case, e))
    };
    let n = c.common;
    let (Ok(coarse), Ok(fine), Ok(best)) = (run(n), run(2 * n), run(10 * n)) else {
        obs.label("not converged");
        return Ok(());
    };
    if !coarse.regular {
        obs.label("not regular");
        return Ok(());
    }
    obs.nontrivial();
    // Errors of averages of periodic functions with kinks are of second order
    for (k, f, n) in [("coarse", &coarse, n), ("fine", &fine, 2 * n)] {
        let n = f64::from(n);
        // Extremes fall between points
        f.agrees(&best, Some(&[]), 40. / (n * n), 40. / (n * n), true, obs)
            .map_err(|e| format!("{k} resolution ({n} intervals): {e}"))?;
    }
    Ok(())
}

fn main() {
    let opts = || Opts { cond: false, acc: Acc::Any, ..Opts::default() };
    Check::new(
        "C25",
        "Random engines with fixed approaches at two resolutions with common times (sampled), and at three increasing resolutions (averages). Non-trivial: the run converges (helium above 130 K and hydrogen above 100 K only).",
    )
    .leg(
        "sampled",
        3000,
        100000,
        move || {
            (engine(opts()), prop_oneof![1 => Just(1u32), 6 => 1u32..30], 1u32..20, 1u32..20)
                .prop_map(|(engine, common, a, b)| Pair { engine, common, a, b })
                .boxed()
        },
        sampled,
    )
    .leg(
        "averages",
        400,
        10000,
        move || {
            (engine(Opts { acc: Acc::Tight, ..opts() }), 30u32..120)
                .prop_map(|(engine, common)| Pair { engine, common, a: 1, b: 2 })
                .boxed()
        },
        averages,
    )
    .run()
}
