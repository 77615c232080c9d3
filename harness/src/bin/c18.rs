//! C18: a configuration runs exactly the engine it describes
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sett_rs::types::*;
use sett_rs::ws::{sinusoidal_drive::Geometry, Parasitics, SinusoidalDrive, ThermalResistance, WorkingSpaces};
use sett_rs::{api, chx, hhx, regen, Components, Config, Legacy};
use settlab::case::*;
use settlab::conf::{self, any_conf, write, ConfCase, Format, Node, FORMATS};
use settlab::must;
use settlab::parts::with_ws_state;
use settlab::rt::*;
use std::io::{Read, Write};
use std::process::{Command, Stdio};

fn same(name: &str, got: f64, want: f64) -> Verdict {
    must!(
        got.to_bits() == want.to_bits() || got == want,
        "{name} is {got:?} instead of {want:?}"
    );
    Ok(())
}

fn same_power(name: &str, got: ParasiticPower, thermal: f64, mechanical: f64) -> Verdict {
    same(&format!("thermal parasitics of {name}"), got.thermal, thermal)?;
    same(&format!("mechanical parasitics of {name}"), got.mechanical, mechanical)?;
    same(&format!("electrical parasitics of {name}"), got.electrical, 0.)
}

/// An arbitrary state of an exchanger
fn hxr(seed: &[f64; 8]) -> HeatExchanger {
    HeatExchanger {
        temp: seed[0],
        pres: seed[1] * 1e4,
        dens: seed[2] / 100.,
        cp: seed[3] * 10.,
        m_dot: seed[4] / 1e4,
        Q_dot: seed[5] - 500.,
    }
}

struct States {
    chx: chx::State,
    regen: regen::State,
    hhx: hhx::State,
    pres: [f64; 4],
}

fn states(seed: &[f64; 8]) -> States {
    States {
        chx: chx::State { hxr: hxr(seed), sink_temp: seed[6] },
        regen: regen::State { hxr: hxr(seed), temp_chx: seed[6], temp_hhx: seed[7] },
        hhx: hhx::State { hxr: hxr(seed), source_temp: seed[6] },
        pres: [seed[0] * 1e4, seed[1] * 1e4, seed[2] * 1e4, seed[3] * 1e4],
    }
}

fn seeds() -> impl Strategy<Value = [f64; 8]> + Clone {
    [1f64..1000., 1f64..1000., 1f64..1000., 1f64..1000., 1f64..1000., 1f64..1000., 1f64..1000., 1f64..1000.]
}

fn num(n: &Node, path: &[&str]) -> f64 {
    let path: Vec<String> = path.iter().map(|s| s.to_string()).collect();
    match n.at(&path) {
        Node::Num(x, _) => *x,
        Node::Int(i) => f64::from(*i),
        other => panic!("{other:?} is not a number"),
    }
}

// ---------------------------------------------------------------- any values

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Values {
    conf: ConfCase,
    format: Format,
    order: u64,
    state: [f64; 8],
}

fn any_values() -> BoxedStrategy<Values> {
    (any_conf(true), 0usize..2, 0usize..2, 0usize..2, 0usize..2, 0usize..3, any::<u64>(), seeds())
        .prop_map(|(mut conf, ws, chx, regen, hhx, f, order, state)| {
            conf.ws = ws;
            conf.chx = chx;
            conf.regen = regen;
            conf.hhx = hhx;
            Values { conf, format: FORMATS[f], order, state }
        })
        .boxed()
}

fn values(c: &Values, obs: &mut Obs) -> Verdict {
    let node = c.conf.modern(None);
    let mut shuffled = node.clone();
    shuffled.shuffle(c.order);
    let text = write(&shuffled, c.format);
    let config: Config = conf::read(&text, c.format).map_err(|e| format!("rejected: {e}\n{text}"))?;
    obs.nontrivial();
    let inputs = RunInputs::from(config.conditions);
    same("pres_zero", inputs.pres_zero, num(&node, &["conditions", "pres_zero"]))?;
    same("temp_sink", inputs.temp_sink, num(&node, &["conditions", "temp_sink"]))?;
    same("temp_source", inputs.temp_source, num(&node, &["conditions", "temp_source"]))?;
    let s = RunSettings::from(config.solver);
    let tol = |l: &str, k: &str| num(&node, &["solver", l, "tolerance", k]);
    same("inner abs", s.loop_tol.inner.abs, tol("inner_loop", "abs"))?;
    same("inner rel", s.loop_tol.inner.rel, tol("inner_loop", "rel"))?;
    same("outer abs", s.loop_tol.outer.abs, tol("outer_loop", "abs"))?;
    same("outer rel", s.loop_tol.outer.rel, tol("outer_loop", "rel"))?;
    same("ode abs", s.ode_tol.abs, tol("ode", "abs"))?;
    same("ode rel", s.ode_tol.rel, tol("ode", "rel"))?;
    same("resolution", f64::from(s.resolution), num(&node, &["solver", "ode", "num_timesteps"]))?;
    same("inner limit", s.max_iters.inner as f64, num(&node, &["solver", "inner_loop", "max_iterations"]))?;
    same("outer limit", s.max_iters.outer as f64, num(&node, &["solver", "outer_loop", "max_iterations"]))?;

    let parts = Components::from(config.engine.components);
    let st = states(&c.state);
    let part = |name: &str, model: &str| {
        node.at(&["engine", "components", name, model].map(String::from)).clone()
    };

    let model = ["fixed_approach", "fixed_conductance"];
    let power = ParasiticPower::default();
    // Cold exchanger
    let n = part("chx", model[c.conf.chx]);
    let get = |k: &str| num(&n, &[k]);
    same("volume of the cold exchanger", parts.chx.volume(), get("vol"))?;
    same("resistance of the cold exchanger", parts.chx.hydraulic_resistance(&st.chx), get("R_hyd"))?;
    same_power("the cold exchanger", parts.chx.parasitics(&st.chx), 0., get("W_parasitic"))?;
    let hand: Box<dyn chx::ColdHeatExchanger> = if c.conf.chx == 0 {
        Box::new(chx::FixedApproach::new(get("vol"), get("R_hyd"), get("DT"), power))
    } else {
        Box::new(chx::FixedConductance::new(get("vol"), get("R_hyd"), get("UA"), power))
    };
    let (got, want) = (parts.chx.approach(&st.chx), hand.approach(&st.chx));
    must!(got.to_bits() == want.to_bits(), "cold approach is {got:?}, by hand {want:?}");
    same("initial cold approach", parts.chx.initial_approach(), hand.initial_approach())?;
    if c.conf.chx == 0 {
        same("fixed cold approach", got, get("DT"))?;
    }
    // Regenerator
    let n = part("regen", model[c.conf.regen]);
    let get = |k: &str| num(&n, &[k]);
    same("volume of the regenerator", parts.regen.volume(), get("vol"))?;
    same("resistance of the regenerator", parts.regen.hydraulic_resistance(&st.regen), get("R_hyd"))?;
    same_power("the regenerator", parts.regen.parasitics(&st.regen), get("Q_parasitic"), 0.)?;
    let hand: Box<dyn regen::Regenerator> = if c.conf.regen == 0 {
        Box::new(regen::FixedApproach::new(get("vol"), get("R_hyd"), get("DT"), power))
    } else {
        Box::new(regen::FixedConductance::new(get("vol"), get("R_hyd"), get("UA"), power))
    };
    let (got, want) = (parts.regen.approach(&st.regen), hand.approach(&st.regen));
    must!(got.to_bits() == want.to_bits(), "regenerator approach is {got:?}, by hand {want:?}");
    same("initial regenerator approach", parts.regen.initial_approach(), hand.initial_approach())?;
    if c.conf.regen == 0 {
        same("fixed regenerator approach", got, get("DT"))?;
    }
    // Hot exchanger
    let n = part("hhx", model[c.conf.hhx]);
    let get = |k: &str| num(&n, &[k]);
    same("volume of the hot exchanger", parts.hhx.volume(), get("vol"))?;
    same("resistance of the hot exchanger", parts.hhx.hydraulic_resistance(&st.hhx), get("R_hyd"))?;
    same_power("the hot exchanger", parts.hhx.parasitics(&st.hhx), get("Q_parasitic"), get("W_parasitic"))?;
    let hand: Box<dyn hhx::HotHeatExchanger> = if c.conf.hhx == 0 {
        Box::new(hhx::FixedApproach::new(get("vol"), get("R_hyd"), get("DT"), power))
    } else {
        Box::new(hhx::FixedConductance::new(get("vol"), get("R_hyd"), get("UA"), power))
    };
    let (got, want) = (parts.hhx.approach(&st.hhx), hand.approach(&st.hhx));
    must!(got.to_bits() == want.to_bits(), "hot approach is {got:?}, by hand {want:?}");
    same("initial hot approach", parts.hhx.initial_approach(), hand.initial_approach())?;
    if c.conf.hhx == 0 {
        same("fixed hot approach", got, get("DT"))?;
    }
    // Drive
    let n = part("ws", ["sinusoidal", "rhombic"][c.conf.ws]);
    let get = |k: &str| num(&n, &[k]);
    with_ws_state(st.pres, |s| -> Verdict {
        same("frequency", parts.ws.frequency(s), get("frequency"))?;
        let r = parts.ws.thermal_resistance(s);
        same("thermal resistance of the compression space", r.comp, get("R_c"))?;
        same("thermal resistance of the expansion space", r.exp, get("R_e"))?;
        let p = parts.ws.parasitics(s);
        same_power("the compression space", p.comp, 0., get("W_parasitic_c"))?;
        same_power("the expansion space", p.exp, get("Q_parasitic_e"), get("W_parasitic_e"))?;
        if c.conf.ws == 0 {
            let hand = SinusoidalDrive {
                frequency: get("frequency"),
                phase_angle: get("phase_angle"),
                comp_geometry: Geometry { clearance_volume: get("V_clearance_c"), swept_volume: get("V_swept_c") },
                exp_geometry: Geometry { clearance_volume: get("V_clearance_e"), swept_volume: get("V_swept_e") },
                thermal_resistance: ThermalResistance::default(),
                parasitics: Parasitics::default(),
            };
            let t = c.state[7] / get("frequency") / 500.;
            let (a, b) = (parts.ws.volumes(s)(t), hand.volumes(s)(t));
            let (a, b) = (format!("{a:?}"), format!("{b:?}"));
            must!(a == b, "volumes are {a}, by hand {b}");
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- runs

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Run {
    engine: EngineCase,
    format: Format,
    style: u8,
    order: u64,
}

fn run_case(limits: bool) -> BoxedStrategy<Run> {
    let o = Opts {
        virial: false,
        fourier: false,
        solvers: false,
        acc: Acc::Any,
        res: if limits { Res::Small } else { Res::Any },
        ..Opts::default()
    };
    (engine(o), 0usize..3, 0u8..4, any::<u64>())
        .prop_map(move |(mut engine, f, style, order)| {
            if limits {
                engine.set.max_inner = 20;
                engine.set.max_outer = 20;
            }
            Run { engine, format: FORMATS[f], style, order }
        })
        .boxed()
}

impl Run {
    fn node(&self, legacy: bool) -> Node {
        conf::engine_node(&self.engine, self.style, legacy, self.order)
    }
    /// Results of the engine built by hand
    fn by_hand(&self) -> Result<api::RunResults, String> {
        self.engine
            .run()
            .map(api::RunResults::from)
            .map_err(|e| error_name(&e).to_string())
    }
}

fn runs(c: &Run, obs: &mut Obs) -> Verdict {
    let text = write(&c.node(false), c.format);
    let config: Config = conf::read(&text, c.format).map_err(|e| format!("rejected: {e}\n{text}"))?;
    let got = match sett_rs::run_engine(config) {
        Ok(r) => {
            obs.nontrivial();
            c.engine.labels(obs);
            format!("{r:?}")
        }
        Err(e) => {
            obs.label(format!("failed {}", error_name(&e)));
            error_name(&e).to_string()
        }
    };
    let want = match c.by_hand() {
        Ok(r) => format!("{r:?}"),
        Err(e) => e,
    };
    must!(got == want, "the configuration gives\n{got}\nbut the engine built by hand gives\n{want}");
    Ok(())
}

// ---------------------------------------------------------------- printing entry point

fn child(kind: &str) -> ! {
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).expect("input");
    match kind {
        "legacy" => {
            sett_rs::run_from_config(conf::read::<Legacy>(&text, Format::Json).expect("legacy configuration"));
        }
        _ => sett_rs::run_from_config(conf::read::<Config>(&text, Format::Json).expect("configuration")),
    }
    std::process::exit(0);
}

fn printed(c: &Run, obs: &mut Obs) -> Verdict {
    let legacy = c.order % 2 == 0;
    let text = write(&c.node(legacy), Format::Json);
    let exe = std::env::current_exe().expect("own path");
    let mut process = Command::new(exe)
        .arg("--child")
        .arg(if legacy { "legacy" } else { "modern" })
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("child starts");
    process.stdin.take().expect("pipe").write_all(text.as_bytes()).expect("child reads");
    let out = process.wait_with_output().expect("child ends");
    let stdout = String::from_utf8_lossy(&out.stdout);
    obs.label(if legacy { "legacy" } else { "modern" });
    match c.by_hand() {
        Ok(r) => {
            obs.nontrivial();
            must!(out.status.success(), "run_from_config fails where the engine runs by hand");
            let results = format!("{r:?}");
            must!(
                stdout.contains(&results),
                "run_from_config prints\n{stdout}\nwithout the results by hand\n{results}"
            );
            for (name, v) in
                [("time", &r.values.time), ("P", &r.values.P), ("T_c", &r.values.T_c), ("T_e", &r.values.T_e)]
            {
                let v = format!("{v:?}");
                must!(
                    stdout.lines().any(|l| l.trim_start().starts_with(name) && l.ends_with(&v)),
                    "run_from_config prints\n{stdout}\nwithout {name} by hand {v}"
                );
            }
        }
        Err(_) => {
            obs.label("failed");
            must!(!out.status.success(), "run_from_config succeeds where the engine fails by hand");
            must!(!stdout.contains("Results"), "run_from_config prints results of a failed run");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- defaults

fn defaults(seed: &[f64; 8], obs: &mut Obs) -> Verdict {
    obs.nontrivial();
    let st = states(seed);
    fn power(name: &str, a: ParasiticPower, b: ParasiticPower) -> Verdict {
        must!(a == b, "parasitics of default {name}: {a:?} and {b:?}");
        Ok(())
    }
    macro_rules! exchanger {
        ($module:ident, $model:ident, $state:expr, $trait:path) => {{
            use $trait as _;
            let a = $module::$model::default();
            let $module::Config::$model(config) = $module::Config::$model(Default::default()) else {
                unreachable!()
            };
            let b = $module::$model::from(config);
            let name = concat!(stringify!($module), " ", stringify!($model));
            same(&format!("volume of default {name}"), a.volume(), b.volume())?;
            same(&format!("resistance of default {name}"), a.hydraulic_resistance($state), b.hydraulic_resistance($state))?;
            same(&format!("approach of default {name}"), a.approach($state), b.approach($state))?;
            same(&format!("initial approach of default {name}"), a.initial_approach(), b.initial_approach())?;
            power(name, a.parasitics($state), b.parasitics($state))?;
        }};
    }
    exchanger!(chx, FixedApproach, &st.chx, chx::ColdHeatExchanger);
    exchanger!(chx, FixedConductance, &st.chx, chx::ColdHeatExchanger);
    exchanger!(regen, FixedApproach, &st.regen, regen::Regenerator);
    exchanger!(regen, FixedConductance, &st.regen, regen::Regenerator);
    exchanger!(hhx, FixedApproach, &st.hhx, hhx::HotHeatExchanger);
    exchanger!(hhx, FixedConductance, &st.hhx, hhx::HotHeatExchanger);
    let a = sett_rs::ws::RhombicDrive::default();
    let sett_rs::ws::Config::Rhombic(config) = sett_rs::ws::Config::Rhombic(Default::default()) else {
        unreachable!()
    };
    let b = sett_rs::ws::RhombicDrive::from(config);
    with_ws_state(st.pres, |s| -> Verdict {
        same("frequency of the default rhombic drive", a.frequency(s), b.frequency(s))?;
        let (x, y) = (a.thermal_resistance(s), b.thermal_resistance(s));
        same("R_c of the default rhombic drive", x.comp, y.comp)?;
        same("R_e of the default rhombic drive", x.exp, y.exp)?;
        let (x, y) = (a.parasitics(s), b.parasitics(s));
        power("rhombic drive (compression)", x.comp, y.comp)?;
        power("rhombic drive (expansion)", x.exp, y.exp)?;
        let t = seed[7] / 1e4;
        let (x, y) = (format!("{:?}", a.volumes(s)(t)), format!("{:?}", b.volumes(s)(t)));
        must!(x == y, "volumes of the default rhombic drive are {x} and {y}");
        Ok(())
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(String::as_str) == Some("--child") {
        child(&args[2]);
    }
    Check::new(
        "C18",
        "Any values in every field of every implemented model (components and settings inspected); random engines run from text and by hand, compared bit by bit; the printing entry point in a child process; defaults in random states. Non-trivial: the configuration is read (values), the run converges (runs).",
    )
    .leg("values", 20000, 500000, any_values, values)
    .leg("runs", 700, 20000, || run_case(false), runs)
    .leg("printed", 250, 5000, || run_case(true), printed)
    .leg("defaults", 2000, 20000, || seeds().boxed(), defaults)
    .run()
}
