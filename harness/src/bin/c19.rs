//! C19: a legacy configuration means the same as its modern equivalent
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sett_rs::{Config, Legacy};
use settlab::conf::*;
use settlab::must;
use settlab::rt::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    conf: ConfCase,
    format: Format,
    order: u64,
    pick: u32,
}

fn case() -> BoxedStrategy<Case> {
    (
        any_conf(true),
        prop_oneof![3 => Just(Format::Json), 1 => Just(Format::Toml), 1 => Just(Format::Yaml)],
        any::<u64>(),
        any::<u32>(),
    )
        .prop_map(|(conf, format, order, pick)| Case { conf, format, order, pick })
        .boxed()
}

fn legacy(c: &Case, conf: &ConfCase) -> Result<Config, String> {
    let mut node = conf.legacy();
    node.shuffle(c.order);
    let text = write(&node, c.format);
    let legacy: Legacy = read(&text, c.format).map_err(|e| format!("legacy configuration is rejected: {e}\n{text}"))?;
    Ok(legacy.into())
}

fn equivalent(c: &Case, obs: &mut Obs) -> Verdict {
    let got = legacy(c, &c.conf)?;
    let modern = c.conf.modern(Some(20));
    let text = write(&modern, Format::Toml);
    let want: Config = read(&text, Format::Toml).map_err(|e| format!("modern configuration is rejected: {e}\n{text}"))?;
    obs.nontrivial();
    obs.label(format!("ws {}", WS[c.conf.ws].legacy));
    obs.label(format!("chx {}", CHX[c.conf.chx].legacy));
    obs.label(format!("regen {}", REGEN[c.conf.regen].legacy));
    obs.label(format!("hhx {}", HHX[c.conf.hhx].legacy));
    obs.label(format!("fluid {} {}", FLUIDS[c.conf.fluid].0, FLUIDS[c.conf.fluid].1.unwrap_or("")));
    must!(
        got == want && format!("{got:?}") == format!("{want:?}"),
        "converted configuration\n{got:?}\nisn't the modern one\n{want:?}"
    );
    // Independently of how modern configurations are read
    if let Some(dbg) = Dbg::parse(&format!("{got:?}")) {
        dbg.matches(&modern).map_err(|e| format!("{e} in the converted configuration {got:?}"))?;
    }
    Ok(())
}

/// Change one value, model or fluid
fn injective(c: &Case, obs: &mut Obs) -> Verdict {
    let a = legacy(c, &c.conf)?;
    let mut other = c.conf.clone();
    let n = c.pick as usize / 128;
    let what = match c.pick % 128 {
        0..=3 => {
            other.fluid = (other.fluid + 1 + n % (FLUIDS.len() - 1)) % FLUIDS.len();
            "fluid"
        }
        4..=7 => {
            other.ws = (other.ws + 1 + n % (WS.len() - 1)) % WS.len();
            "drive model"
        }
        8..=11 => {
            other.chx = (other.chx + 1 + n % (CHX.len() - 1)) % CHX.len();
            "cold exchanger model"
        }
        12..=15 => {
            other.regen = (other.regen + 1 + n % (REGEN.len() - 1)) % REGEN.len();
            "regenerator model"
        }
        16..=19 => {
            other.hhx = (other.hhx + 1 + n % (HHX.len() - 1)) % HHX.len();
            "hot exchanger model"
        }
        20..=50 => {
            let v = &mut other.solver[n % N_SOLVER];
            v.x = if n % 2 == 0 { -v.x } else { v.x * 1.5 };
            v.n = v.n.wrapping_add(1);
            "solver or conditions"
        }
        _ => {
            let v = &mut other.vals[n % 50];
            v.x = if v.x.is_infinite() { 1. } else { v.x * 1.5 + 1. };
            v.n = v.n.wrapping_add(1);
            "value of a component"
        }
    };
    if other.legacy() == c.conf.legacy() {
        return Ok(()); // the model doesn't use the value
    }
    obs.label(what);
    obs.nontrivial();
    let b = legacy(c, &other)?;
    must!(
        a != b && format!("{a:?}") != format!("{b:?}"),
        "legacy configurations that differ in {what} convert to the same configuration {a:?}"
    );
    Ok(())
}

fn main() {
    Check::new(
        "C19",
        "Random legacy configurations over every model of every component and every fluid, mostly JSON, keys in random order; the modern equivalent is written independently from the same values. Non-trivial: all of them (differences: the texts differ).",
    )
    .leg("equivalent", 50000, 1500000, case, equivalent)
    .leg("injective", 50000, 1500000, case, injective)
    .run()
}
