//! C07: engine temperatures are a fixed point of the exchanger approaches
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use settlab::case::*;
use settlab::parts::*;
use settlab::phys::*;
use settlab::rt::*;
use settlab::{must, near};
use sett_rs::types::RunError;
use sett_rs::Components;

fn layout(t_sink: f64, t_source: f64, t: &Temps, sink: f64, source: f64) -> Verdict {
    must!(sink == t_sink && source == t_source, "sink {sink} and source {source} aren't those requested");
    let cold = t.rc - t.k;
    let hot = t.l - t.rh;
    let eps = 1e-12 * (t.k.abs() + t.l.abs());
    must!((cold - hot).abs() <= eps, "regenerator approaches {cold:e} and {hot:e} differ");
    let want = log_mean(t.l - 0.5 * hot, t.k + 0.5 * cold);
    must!((t.r - want).abs() <= 1e-9 * want, "regenerator is at {:e}, log mean is {want:e}", t.r);
    Ok(())
}

fn fixed_point(case: &EngineCase, obs: &mut Obs) -> Verdict {
    let Ok(e) = case.run() else {
        obs.label("not converged");
        return Ok(());
    };
    case.labels(obs);
    let m = Model::of_engine(&e);
    let c = Cyc::of(&e);
    let t = m.t;
    layout(case.t_sink, case.t_source, &t, e.state.temp.sink, e.state.temp.source)?;
    let avg = c.averages(&m);
    let cp = |t: f64| m.fluid.cp(t, avg.p);
    let ak = approach_hx(case.chx.kind, avg.q[0], avg.m[0] * cp(t.k));
    let al = approach_hx(case.hhx.kind, avg.q[2], avg.m[2] * cp(t.l));
    let ar = approach_regen(case.regen.kind, avg.m[1] * cp(t.r), t.k, t.l);
    if !case.all_fixed() {
        obs.nontrivial();
    }
    let n = temps(case.t_sink, case.t_source, ak, ar, al);
    let (abs, rel) = case.set.outer;
    for (name, old, new) in [
        ("cold exchanger", t.k, n.k),
        ("regenerator cold end", t.rc, n.rc),
        ("regenerator", t.r, n.r),
        ("regenerator hot end", t.rh, n.rh),
        ("hot exchanger", t.l, n.l),
    ] {
        let d = (new - old).abs();
        let round = 1e-10 * old.abs();
        obs.max("temperature change / absolute limit", d / (abs + round));
        obs.max("temperature change / relative limit", d / old.abs() / (rel + 1e-10));
        must!(d < abs + round, "{name} temperature {old:e} becomes {new:e}: change {d:e} isn't below {abs:e}");
        must!(d / old.abs() < rel + 1e-10, "{name} temperature {old:e} becomes {new:e}: change isn't below {rel:e} relative");
    }
    // Exact for fixed approaches
    if let HxKind::Fixed(dt) = case.chx.kind {
        near!(obs, "fixed cold approach", t.k, case.t_sink + dt, 1e-13 * t.k.abs(), "");
    }
    if let HxKind::Fixed(dt) = case.hhx.kind {
        near!(obs, "fixed hot approach", t.l, case.t_source - dt, 1e-13 * t.l.abs(), "");
    }
    if let HxKind::Fixed(dt) = case.regen.kind {
        let eps = 1e-13 * (t.k.abs() + t.l.abs());
        near!(obs, "fixed regenerator approach (cold)", t.rc, t.k + dt, eps, "");
        near!(obs, "fixed regenerator approach (hot)", t.rh, t.l - dt, eps, "");
    }
    // The same components again
    let again = temps(
        case.t_sink,
        case.t_source,
        e.components.chx.approach(&e.state.chx()),
        e.components.regen.approach(&e.state.regen()),
        e.components.hhx.approach(&e.state.hhx()),
    );
    for (name, old, new) in [
        ("cold exchanger", t.k, again.k),
        ("regenerator cold end", t.rc, again.rc),
        ("regenerator", t.r, again.r),
        ("regenerator hot end", t.rh, again.rh),
        ("hot exchanger", t.l, again.l),
    ] {
        let d = (new - old).abs();
        must!(
            d < abs + 1e-10 * old && d / old < rel + 1e-10,
            "{name}: its own state gives {new:e} instead of {old:e}"
        );
    }
    Ok(())
}

/// Exchangers whose approaches draw closer to their final values in every iteration
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Drawn {
    case: EngineCase,
    /// Distance of the initial approaches from the final ones
    start: [f64; 3],
    /// Part of the distance that is left after an iteration
    left: [f64; 3],
}

impl Drawn {
    fn base(&self) -> [f64; 3] {
        [self.case.chx.fixed(), self.case.regen.fixed(), self.case.hhx.fixed()]
    }
    fn layout(&self, a: [f64; 3]) -> Temps {
        temps(self.case.t_sink, self.case.t_source, a[0], a[1], a[2])
    }
    /// Approaches at the given temperatures
    fn next(&self, k: f64, r: f64, l: f64) -> [f64; 3] {
        let base = self.base();
        let want = self.layout(base);
        [
            base[0] + self.left[0] * (k - want.k),
            // The average regenerator temperature is all that this exchanger is shown of its own ends
            base[1] + self.left[1] * (r - want.r),
            base[2] - self.left[2] * (l - want.l),
        ]
    }
}

fn drawn(d: &Drawn, obs: &mut Obs) -> Verdict {
    let case = &d.case;
    let (abs, rel) = case.set.outer;
    // The temperatures don't depend on the cycle, so that all of them are known
    let base = d.base();
    let mut now = d.layout([base[0] + d.start[0], base[1] + d.start[1], base[2] + d.start[2]]);
    let first = now;
    let mut needed = None;
    for n in 1..=case.set.max_outer {
        let a = d.next(now.k, now.r, now.l);
        let new = d.layout(a);
        let (mut sure, mut maybe) = (true, true);
        for (x, y) in [(now.k, new.k), (now.rc, new.rc), (now.r, new.r), (now.rh, new.rh), (now.l, new.l)] {
            let change = (y - x).abs();
            let error = 1e-12 * x.abs();
            sure &= change + error < abs && (change + error) / x.abs() < rel;
            maybe &= change - error < abs && (change - error) / x.abs() < rel;
        }
        if sure {
            needed = Some(n);
            break;
        }
        if maybe {
            obs.label("can't tell when it converges");
            return Ok(());
        }
        now = new;
    }
    let parts = {
        let hx = |which: usize, spec: HxSpec| {
            let me = d.clone();
            Hx::new(spec.vol, spec.r_hyd, base[which] + d.start[which], move |s: &Seen| {
                me.next(s.hxr.temp, s.hxr.temp, s.hxr.temp)[which]
            })
        };
        Components {
            ws: case.ws(),
            chx: Box::new(hx(0, case.chx)),
            regen: Box::new(hx(1, case.regen)),
            hhx: Box::new(hx(2, case.hhx)),
        }
    };
    match (case.run_with(parts), needed) {
        (Err(RunError::InnerLoop), _) => {
            obs.label("inner loop fails");
            Ok(())
        }
        (Err(RunError::OuterLoop), None) => {
            obs.label("limit reached");
            Ok(())
        }
        (Err(RunError::OuterLoop), Some(n)) => {
            Err(format!("{} outer iterations aren't enough although the temperatures settle after {n}", case.set.max_outer))
        }
        (Ok(_), None) => Err(format!("the run converges although its temperatures still change after {} iterations", case.set.max_outer)),
        (Ok(e), Some(n)) => {
            if n > 1 {
                obs.nontrivial();
            }
            obs.max("iterations", n as f64);
            obs.label(format!("tolerance 1e{} K, 1e{} relative", 3. * (abs.log10() / 3.).round(), 3. * (rel.log10() / 3.).round()));
            let t = e.state.temp;
            let size = first.k.abs() + first.l.abs();
            for (name, got, want) in [
                ("cold exchanger", t.chx, now.k),
                ("regenerator cold end", t.regen.cold, now.rc),
                ("regenerator", t.regen.avg, now.r),
                ("regenerator hot end", t.regen.hot, now.rh),
                ("hot exchanger", t.hhx, now.l),
            ] {
                near!(obs, "settled temperature", got, want, 1e-12 * size, "{name} after {n} iterations");
            }
            Ok(())
        }
    }
}

fn draw() -> BoxedStrategy<Drawn> {
    let o = Opts { res: Res::Exactly(3), cond: false, losses: false, ..Opts::default() };
    let part = || prop_oneof![1 => Just(0.), 3 => -0.6f64..0.6, 2 => 0.6f64..0.9];
    // Either tolerance may be the one that decides
    let tol = (lg(1e-8, 1e2), prop_oneof![1 => lg(1e-6, 1e6), 2 => lg(0.01, 100.)]);
    (engine(o), [-1f64..1., -0.5f64..0.5, -1f64..1.], [part(), part(), part()], tol, 1usize..4)
        .prop_map(|(mut case, start, left, (abs, lax), limits)| {
            let t = case.t_sink.min(case.t_source);
            case.set.inner = (1., 1e-2);
            case.set.ode = (1e-5, 1e-5);
            case.set.max_inner = 100;
            case.set.max_outer = [400, 100, 20][limits - 1];
            case.set.outer = if lax > 1. { (abs, abs * lax / t) } else { (abs / lax, abs / t) };
            let scale = 0.05 * t;
            Drawn { case, start: start.map(|x| x * scale), left }
        })
        .boxed()
}

fn main() {
    let tight = Opts { res: Res::Small, fixed: true, ..Opts::default() };
    let cond = Opts { res: Res::Small, fixed: false, acc: Acc::Any, ..Opts::default() };
    let fixed = Opts { res: Res::Any, cond: false, acc: Acc::Any, ..Opts::default() };
    Check::new(
        "C07",
        "Random engines and settings; non-trivial when the run converges and at least one exchanger's approach depends on the cycle; in leg drawn exchangers approach their final temperatures by a known law, and it takes more than one iteration.",
    )
    .leg("conductances", 900, 30000, move || engine(cond), fixed_point)
    .leg("mixed", 700, 20000, move || engine(tight), fixed_point)
    .leg("fixed", 800, 20000, move || engine(fixed), fixed_point)
    .may_be_vacuous()
    .leg("drawn", 4000, 100_000, draw, drawn)
    .run()
}
