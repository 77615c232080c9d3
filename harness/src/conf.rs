//! Configurations as data: every model of every component, written in three formats

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Write;

use crate::case::{DriveSpec, EngineCase, HxKind, HxSpec};
// ---------------------------------------------------------------- trees

#[derive(Debug, Clone, PartialEq)]
pub enum Node {
    Num(f64, u8),
    Int(u32),
    Word(String),
    List(Vec<Node>),
    Map(Vec<(String, Node)>),
}

impl Node {
    pub fn map<const N: usize>(items: [(&str, Node); N]) -> Node {
        Node::Map(items.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn word(w: &str) -> Node {
        Node::Word(w.to_string())
    }
    /// Paths of all leaves
    pub fn leaves(&self) -> Vec<Vec<String>> {
        match self {
            Node::Map(items) => items
                .iter()
                .flat_map(|(k, v)| {
                    v.leaves().into_iter().map(|mut p| {
                        p.insert(0, k.clone());
                        p
                    })
                })
                .collect(),
            _ => vec![vec![]],
        }
    }
    /// Paths of all maps but the root
    pub fn sections(&self) -> Vec<Vec<String>> {
        let Node::Map(items) = self else { return vec![] };
        let mut out = vec![];
        for (k, v) in items {
            if let Node::Map(_) = v {
                out.push(vec![k.clone()]);
                out.extend(v.sections().into_iter().map(|mut p| {
                    p.insert(0, k.clone());
                    p
                }));
            }
        }
        out
    }
    pub fn at(&self, path: &[String]) -> &Node {
        match (self, path) {
            (_, []) => self,
            (Node::Map(items), [k, rest @ ..]) => {
                items.iter().find(|(n, _)| n == k).expect("path").1.at(rest)
            }
            _ => panic!("no such path"),
        }
    }
    pub fn at_mut(&mut self, path: &[String]) -> &mut Node {
        match (self, path) {
            (node, []) => node,
            (Node::Map(items), [k, rest @ ..]) => {
                items.iter_mut().find(|(n, _)| n == k).expect("path").1.at_mut(rest)
            }
            _ => panic!("no such path"),
        }
    }
    pub fn remove(&mut self, path: &[String]) {
        let (last, dir) = path.split_last().expect("not the root");
        if let Node::Map(items) = self.at_mut(dir) {
            items.retain(|(k, _)| k != last);
        }
    }
    pub fn rename(&mut self, path: &[String], name: &str) {
        let (last, dir) = path.split_last().expect("not the root");
        if let Node::Map(items) = self.at_mut(dir) {
            for (k, _) in items {
                if k == last {
                    *k = name.to_string();
                }
            }
        }
    }
    /// Put the keys of every map into another order
    pub fn shuffle(&mut self, seed: u64) {
        let Node::Map(items) = self else { return };
        let mut s = seed | 1;
        for i in (1..items.len()).rev() {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            items.swap(i, (s % (i as u64 + 1)) as usize);
        }
        for (_, v) in items {
            v.shuffle(s);
        }
    }
}

// ---------------------------------------------------------------- formats

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Format {
    Toml,
    Json,
    Yaml,
}

pub const FORMATS: [Format; 3] = [Format::Toml, Format::Json, Format::Yaml];

fn number(x: f64, style: u8, format: Format) -> String {
    if x.is_infinite() {
        return match format {
            Format::Toml => "inf".into(),
            Format::Json => "\"inf\"".into(),
            Format::Yaml => "\"inf\"".into(),
        };
    }
    let small = x.abs() < 1e15;
    match style % 4 {
        0 if x.fract() == 0. && small => format!("{}", x as i64),
        1 if small && (x == 0. || x.abs() > 1e-12) => {
            let s = format!("{x}");
            if s.contains('.') {
                s
            } else {
                format!("{s}.0")
            }
        }
        2 => {
            // mantissa with a decimal point and exponent
            let s = format!("{x:e}");
            match s.split_once('e') {
                Some((m, e)) if !m.contains('.') => format!("{m}.0e{e}"),
                _ => s,
            }
        }
        _ => format!("{x:?}"),
    }
}

pub fn write(node: &Node, format: Format) -> String {
    let mut out = String::new();
    match format {
        Format::Json => json(node, &mut out, 0),
        Format::Yaml => yaml(node, &mut out, 0),
        Format::Toml => toml(node, &mut out, &mut vec![]),
    }
    out
}

fn json(node: &Node, out: &mut String, depth: usize) {
    let pad = "  ".repeat(depth + 1);
    match node {
        Node::Num(x, s) => out.push_str(&number(*x, *s, Format::Json)),
        Node::Int(i) => write!(out, "{i}").unwrap(),
        Node::Word(w) => write!(out, "\"{w}\"").unwrap(),
        Node::List(l) => {
            out.push('[');
            for (i, n) in l.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                json(n, out, depth);
            }
            out.push(']');
        }
        Node::Map(items) => {
            out.push_str("{\n");
            for (i, (k, v)) in items.iter().enumerate() {
                if i > 0 {
                    out.push_str(",\n");
                }
                write!(out, "{pad}\"{k}\": ").unwrap();
                json(v, out, depth + 1);
            }
            write!(out, "\n{}}}", "  ".repeat(depth)).unwrap();
        }
    }
}

fn yaml(node: &Node, out: &mut String, depth: usize) {
    let pad = "  ".repeat(depth);
    let Node::Map(items) = node else {
        out.push_str(&inline(node, Format::Yaml));
        return;
    };
    for (k, v) in items {
        match v {
            Node::Map(m) if !m.is_empty() => {
                writeln!(out, "{pad}{k}:").unwrap();
                yaml(v, out, depth + 1);
            }
            _ => writeln!(out, "{pad}{k}: {}", inline(v, Format::Yaml)).unwrap(),
        }
    }
}

fn inline(node: &Node, format: Format) -> String {
    match node {
        Node::Num(x, s) => number(*x, *s, format),
        Node::Int(i) => i.to_string(),
        Node::Word(w) => format!("\"{w}\""),
        Node::List(l) => {
            let items: Vec<String> = l.iter().map(|n| inline(n, format)).collect();
            format!("[{}]", items.join(", "))
        }
        Node::Map(m) => {
            let eq = if format == Format::Toml { " =" } else { ":" };
            let items: Vec<String> =
                m.iter().map(|(k, v)| format!("{k}{eq} {}", inline(v, format))).collect();
            format!("{{ {} }}", items.join(", "))
        }
    }
}

fn toml(node: &Node, out: &mut String, path: &mut Vec<String>) {
    let Node::Map(items) = node else { return };
    let scalar = |v: &Node| match v {
        Node::Map(m) => m.iter().all(|(_, x)| matches!(x, Node::Num(..))) && m.len() < 3,
        _ => true,
    };
    if !path.is_empty() {
        writeln!(out, "[{}]", path.join(".")).unwrap();
    }
    for (k, v) in items.iter().filter(|(_, v)| scalar(v)) {
        writeln!(out, "{k} = {}", inline(v, Format::Toml)).unwrap();
    }
    for (k, v) in items.iter().filter(|(_, v)| !scalar(v)) {
        path.push(k.clone());
        toml(v, out, path);
        path.pop();
    }
}

/// Read a configuration the way the documentation does
pub fn read<'a, T: Deserialize<'a>>(text: &str, format: Format) -> Result<T, String> {
    let format = match format {
        Format::Toml => config::FileFormat::Toml,
        Format::Json => config::FileFormat::Json,
        Format::Yaml => config::FileFormat::Yaml,
    };
    config::Config::builder()
        .add_source(config::File::from_str(text, format))
        .build()
        .map_err(|e| format!("syntax: {e}"))?
        .try_deserialize()
        .map_err(|e| e.to_string())
}

// ---------------------------------------------------------------- models

/// `(name, kind)`: n number, i integer, w=a|b word, {...} nested
type Field = (&'static str, Kind);

pub enum Kind {
    Num,
    Int,
    Word(&'static [&'static str]),
    Map(&'static [Field]),
}
use Kind::*;

pub struct ModelSpec {
    pub modern: &'static str,
    pub legacy: &'static str,
    /// The model can be run
    pub implemented: bool,
    pub fields: &'static [Field],
}

const MATERIAL: &[&str] = &["SS304", "Multimet", "StainlessSteel"];
const CORR: &[&str] = &["Oscillating", "Steady"];
const GW: &[&str] = &["GedeonWood"];

pub const WS: &[ModelSpec] = &[
    ModelSpec {
        modern: "sinusoidal",
        legacy: "Sinusoidal",
        implemented: true,
        fields: &[
            ("frequency", Num),
            ("phase_angle", Num),
            ("V_swept_c", Num),
            ("V_clearance_c", Num),
            ("R_c", Num),
            ("W_parasitic_c", Num),
            ("V_swept_e", Num),
            ("V_clearance_e", Num),
            ("R_e", Num),
            ("W_parasitic_e", Num),
            ("Q_parasitic_e", Num),
        ],
    },
    ModelSpec {
        modern: "rhombic",
        legacy: "Rhombic",
        implemented: true,
        fields: &[
            ("frequency", Num),
            ("V_clearance_c", Num),
            ("R_c", Num),
            ("W_parasitic_c", Num),
            ("V_clearance_e", Num),
            ("R_e", Num),
            ("W_parasitic_e", Num),
            ("Q_parasitic_e", Num),
            ("r_crank", Num),
            ("L_conn", Num),
            ("eccentricity", Num),
            ("D_p", Num),
            ("D_d", Num),
        ],
    },
    ModelSpec {
        modern: "g_p_u3",
        legacy: "GPU3",
        implemented: false,
        fields: &[
            ("frequency", Num),
            ("V_clearance_c", Num),
            ("R_c", Num),
            ("V_clearance_e", Num),
            ("R_e", Num),
            ("r_crank", Num),
            ("L_conn", Num),
            ("eccentricity", Num),
            ("D", Num),
            ("D_dr", Num),
            ("L", Num),
            ("h", Num),
        ],
    },
    ModelSpec {
        modern: "mod2",
        legacy: "Mod2",
        implemented: false,
        fields: &[
            ("frequency", Num),
            ("phaseAngle", Num),
            ("D", Num),
            ("h", Num),
            ("L", Num),
            ("stroke", Num),
            ("V_clearance_c", Num),
            ("R_c", Num),
            ("V_clearance_e", Num),
            ("R_e", Num),
            ("material_p", Word(MATERIAL)),
            ("material_c", Word(MATERIAL)),
            ("th_pw", Num),
            ("th_cw", Num),
            ("L_cond", Num),
            ("e", Num),
        ],
    },
];

pub const CHX: &[ModelSpec] = &[
    ModelSpec {
        modern: "fixed_approach",
        legacy: "FixedApproach",
        implemented: true,
        fields: &[("vol", Num), ("DT", Num), ("R_hyd", Num), ("W_parasitic", Num)],
    },
    ModelSpec {
        modern: "fixed_conductance",
        legacy: "FixedConductance",
        implemented: true,
        fields: &[("vol", Num), ("UA", Num), ("R_hyd", Num), ("W_parasitic", Num)],
    },
    ModelSpec {
        modern: "g_p_u3",
        legacy: "GPU3",
        implemented: false,
        fields: &[
            ("length_total", Num),
            ("length_ht", Num),
            ("D_inner", Num),
            ("D_outer", Num),
            ("N_total", Int),
            ("N_shell", Int),
            ("D_sh", Num),
            ("Ac_d", Num),
            ("roughness", Num),
            ("vol_h", Num),
            ("m_dot_w", Num),
            ("coolant", Word(&["Water"])),
            ("m_dot_a", Num),
            ("UA_a", Num),
            ("W_parasitic", Num),
        ],
    },
    ModelSpec {
        modern: "mod2",
        legacy: "Mod2",
        implemented: false,
        fields: &[
            (
                "geometry",
                Map(&[
                    (
                        "tubes",
                        Map(&[
                            ("length", Num),
                            ("length_ht", Num),
                            ("D_outer", Num),
                            ("D_inner", Num),
                            ("N_total", Int),
                            ("roughness", Num),
                            ("material", Word(MATERIAL)),
                        ]),
                    ),
                    ("shell", Map(&[("R_inner", Num), ("V_header", Num), ("Ac_header", Num)])),
                ]),
            ),
            ("m_dot_p_fs", Num),
            ("W_dot_p_fs", Num),
            ("n_fs", Num),
            ("fluid", Word(&["Water"])),
            ("correlation", Word(CORR)),
        ],
    },
];

pub const REGEN: &[ModelSpec] = &[
    ModelSpec {
        modern: "fixed_approach",
        legacy: "FixedApproach",
        implemented: true,
        fields: &[("vol", Num), ("DT", Num), ("R_hyd", Num), ("Q_parasitic", Num)],
    },
    ModelSpec {
        modern: "fixed_conductance",
        legacy: "FixedConductance",
        implemented: true,
        fields: &[("vol", Num), ("UA", Num), ("R_hyd", Num), ("Q_parasitic", Num)],
    },
    ModelSpec {
        modern: "g_p_u3",
        legacy: "GPU3",
        implemented: false,
        fields: &[
            (
                "geometry",
                Map(&[
                    ("vol_h", Num),
                    ("mesh", Map(&[("material", Word(MATERIAL)), ("D_wire", Num), ("pitch", Num)])),
                    ("shell", Map(&[("diameter", Num), ("length", Num), ("number", Int)])),
                ]),
            ),
            ("Q_parasitic", Num),
            ("bypass", Num),
            ("correlationf", Word(GW)),
            ("correlationj", Word(GW)),
        ],
    },
    ModelSpec {
        modern: "mod2",
        legacy: "Mod2",
        implemented: false,
        fields: &[
            (
                "geometry",
                Map(&[
                    ("mesh", Map(&[("material", Word(MATERIAL)), ("D_wire", Num), ("pitch", Num)])),
                    (
                        "shell",
                        Map(&[
                            ("material", Word(MATERIAL)),
                            ("R_sh", Num),
                            ("th_sh_cold", Num),
                            ("th_sh_hot", Num),
                            ("length", Num),
                        ]),
                    ),
                ]),
            ),
            ("correlationtype", Word(CORR)),
            ("correlationf", Word(GW)),
            ("correlationj", Word(GW)),
        ],
    },
];

const NI: &[Field] = &[
    ("R_f", Num),
    ("L_f", Num),
    ("R_regen", Num),
    ("D_outer", Num),
    ("D_inner", Num),
    ("k_f", Num),
    ("roughness", Num),
    ("N_total", Int),
    ("vol_h", Num),
    ("R_ins", Num),
    ("W_parasitic", Num),
];

pub const HHX: &[ModelSpec] = &[
    ModelSpec {
        modern: "fixed_approach",
        legacy: "FixedApproach",
        implemented: true,
        fields: &[("vol", Num), ("DT", Num), ("R_hyd", Num), ("W_parasitic", Num), ("Q_parasitic", Num)],
    },
    ModelSpec {
        modern: "fixed_conductance",
        legacy: "FixedConductance",
        implemented: true,
        fields: &[("vol", Num), ("UA", Num), ("R_hyd", Num), ("W_parasitic", Num), ("Q_parasitic", Num)],
    },
    ModelSpec {
        modern: "g_p_u3",
        legacy: "GPU3",
        implemented: false,
        fields: &[
            ("L_total", Num),
            ("L_htr", Num),
            ("R_tc", Num),
            ("D_outer", Num),
            ("D_inner", Num),
            ("roughness", Num),
            ("N_total", Int),
            ("vol_h", Num),
            ("eta_comb", Num),
            ("R_c_loss", Num),
            ("W_parasitic", Num),
        ],
    },
    ModelSpec {
        modern: "mod2",
        legacy: "Mod2",
        implemented: false,
        fields: &[
            (
                "geometry",
                Map(&[
                    (
                        "tubes",
                        Map(&[
                            ("L_front", Num),
                            ("L_rear", Num),
                            ("L_inactive", Num),
                            ("D_outer", Num),
                            ("D_inner", Num),
                            ("roughness", Num),
                            ("N_total", Int),
                            ("materialtube", Word(MATERIAL)),
                            ("materialfin", Word(MATERIAL)),
                        ]),
                    ),
                    ("shell", Map(&[("R_outer", Num), ("R_inner", Num), ("V_header", Num)])),
                    ("fins", Map(&[("thickness", Num), ("pitch", Num), ("L_fin", Num)])),
                ]),
            ),
            ("correlation", Word(CORR)),
        ],
    },
    ModelSpec { modern: "g_p_u3_n_i", legacy: "GPU3NI", implemented: false, fields: NI },
    ModelSpec { modern: "mod2_n_i", legacy: "Mod2NI", implemented: false, fields: NI },
];

/// (legacy model, legacy name, modern fluid, modern model)
pub const FLUIDS: &[(&str, Option<&str>, &str, &str)] = &[
    ("IdealGas", Some("Hydrogen"), "hydrogen", "ideal_gas"),
    ("IdealGas", Some("Helium"), "helium", "ideal_gas"),
    ("RealGasRefprop", Some("Hydrogen"), "hydrogen", "ref_prop"),
    ("RealGasRefprop", Some("Helium"), "helium", "ref_prop"),
    ("Hydrogen", None, "hydrogen", "custom"),
];
/// Fluids without a legacy counterpart
pub const MODERN_FLUIDS: &[(&str, &str)] =
    &[("helium", "custom"), ("hydrogen", "fit"), ("helium", "fit")];

// ---------------------------------------------------------------- generated configurations

/// A value: a number, or what an integer or a word is made of
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub struct Val {
    /// Text since JSON has no infinity
    #[serde(with = "f64_text")]
    pub x: f64,
    pub n: u32,
    pub style: u8,
}

mod f64_text {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(x: &f64, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{x:?}"))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<f64, D::Error> {
        String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct ConfCase {
    pub fluid: usize,
    pub ws: usize,
    pub chx: usize,
    pub regen: usize,
    pub hhx: usize,
    /// Used in order by the fields of the models
    pub vals: Vec<Val>,
    /// inner abs, inner rel, outer abs, outer rel, ode abs, ode rel, points, inner and outer limit,
    /// sink, source, pressure
    pub solver: Vec<Val>,
}

pub const N_VALS: usize = 64;
pub const N_SOLVER: usize = 12;

fn fill(fields: &[Field], vals: &mut dyn Iterator<Item = Val>) -> Node {
    Node::Map(
        fields
            .iter()
            .map(|(name, kind)| {
                let node = match kind {
                    Map(inner) => fill(inner, vals),
                    kind => {
                        let v = vals.next().expect("enough values");
                        match kind {
                            // only resistances may be infinite
                            Num if v.x.is_infinite() && !["R_c", "R_e"].contains(name) => {
                                Node::Num(f64::from(v.n) + 0.5, v.style)
                            }
                            Num => Node::Num(v.x, v.style),
                            Int => Node::Int(v.n),
                            Word(w) => Node::word(w[v.n as usize % w.len()]),
                            Map(_) => unreachable!(),
                        }
                    }
                };
                (name.to_string(), node)
            })
            .collect(),
    )
}

impl ConfCase {
    fn parts(&self) -> [(&'static ModelSpec, Node); 4] {
        let mut vals = self.vals.iter().copied();
        let mut part = |list: &'static [ModelSpec], i: usize| {
            let m = &list[i % list.len()];
            (m, fill(m.fields, &mut vals))
        };
        [part(WS, self.ws), part(CHX, self.chx), part(REGEN, self.regen), part(HHX, self.hhx)]
    }
    pub fn runnable(&self) -> bool {
        self.parts().iter().all(|(m, _)| m.implemented) && self.fluid < 2
    }
    fn num(&self, i: usize) -> Node {
        Node::Num(self.solver[i].x, self.solver[i].style)
    }
    fn tol(&self, i: usize) -> Node {
        Node::map([("abs", self.num(i)), ("rel", self.num(i + 1))])
    }
    /// `limits`: iteration limits, the configured ones if `None`
    pub fn modern(&self, limits: Option<u32>) -> Node {
        let [ws, chx, regen, hhx] = self.parts();
        let part = |(m, n): (&'static ModelSpec, Node)| Node::map([(m.modern, n)]);
        let (name, model) = if self.fluid < FLUIDS.len() {
            (FLUIDS[self.fluid].2, FLUIDS[self.fluid].3)
        } else {
            MODERN_FLUIDS[(self.fluid - FLUIDS.len()) % MODERN_FLUIDS.len()]
        };
        let limit = |i: usize| Node::Int(limits.unwrap_or(self.solver[i].n));
        Node::map([
            (
                "engine",
                Node::map([
                    ("fluid", Node::map([(name, Node::map([("model", Node::word(model))]))])),
                    (
                        "components",
                        Node::map([
                            ("ws", part(ws)),
                            ("chx", part(chx)),
                            ("regen", part(regen)),
                            ("hhx", part(hhx)),
                        ]),
                    ),
                ]),
            ),
            (
                "solver",
                Node::map([
                    ("inner_loop", Node::map([("tolerance", self.tol(0)), ("max_iterations", limit(7))])),
                    ("outer_loop", Node::map([("tolerance", self.tol(2)), ("max_iterations", limit(8))])),
                    (
                        "ode",
                        Node::map([
                            ("tolerance", self.tol(4)),
                            ("num_timesteps", Node::Int(self.solver[6].n)),
                        ]),
                    ),
                ]),
            ),
            (
                "conditions",
                Node::map([
                    ("temp_sink", self.num(9)),
                    ("temp_source", self.num(10)),
                    ("pres_zero", self.num(11)),
                ]),
            ),
        ])
    }
    pub fn legacy(&self) -> Node {
        let [ws, chx, regen, hhx] = self.parts();
        let part = |(m, n): (&'static ModelSpec, Node)| {
            Node::map([("model", Node::word(m.legacy)), ("params", n)])
        };
        let (model, name, _, _) = FLUIDS[self.fluid % FLUIDS.len()];
        let fluid = match name {
            Some(n) => Node::map([
                ("model", Node::word(model)),
                ("params", Node::map([("name", Node::word(n))])),
            ]),
            None => Node::map([("model", Node::word(model))]),
        };
        Node::map([
            ("fluid", fluid),
            ("ws", part(ws)),
            ("chx", part(chx)),
            ("regen", part(regen)),
            ("hhx", part(hhx)),
            (
                "solver",
                Node::map([
                    ("innerLoopTolerance", self.tol(0)),
                    ("odeSolver", Node::word("ode45")),
                    ("odeTolerance", self.tol(4)),
                    ("outerLoopTolerance", self.tol(2)),
                    ("timeResolution", Node::Int(self.solver[6].n)),
                ]),
            ),
            (
                "conditions",
                Node::map([("T_cold", self.num(9)), ("T_hot", self.num(10)), ("P_0", self.num(11))]),
            ),
        ])
    }
}

fn val() -> impl Strategy<Value = Val> + Clone {
    let x = prop_oneof![
        // short decimal numbers
        8 => (1i32..1_000_000, -14i32..9, prop::bool::weighted(0.1)).prop_map(|(m, e, neg)| {
            let x: f64 = format!("{}{m}e{e}", if neg { "-" } else { "" }).parse().expect("number");
            x
        }),
        2 => (-300f64..300.).prop_map(|e| 10f64.powf(e)),
        1 => Just(0.),
        1 => Just(f64::INFINITY),
        1 => (1u32..2000).prop_map(f64::from),
    ];
    let n = prop_oneof![3 => 0u32..100, 2 => 0u32..100_000, 1 => Just(u32::MAX)];
    (x, n, 0u8..4).prop_map(|(x, n, style)| Val { x, n, style })
}

/// Any configuration; `legacy` if it has a legacy counterpart
pub fn any_conf(legacy: bool) -> BoxedStrategy<ConfCase> {
    let fluids = FLUIDS.len() + if legacy { 0 } else { MODERN_FLUIDS.len() };
    let solver_val = val().prop_map(|mut v| {
        if v.x.is_infinite() {
            v.x = 1.;
        }
        v
    });
    (
        0..fluids,
        0..WS.len(),
        0..CHX.len(),
        0..REGEN.len(),
        0..HHX.len(),
        prop::collection::vec(val(), N_VALS),
        prop::collection::vec(solver_val, N_SOLVER),
    )
        .prop_map(|(fluid, ws, chx, regen, hhx, vals, solver)| ConfCase {
            fluid,
            ws,
            chx,
            regen,
            hhx,
            vals,
            solver,
        })
        .boxed()
}

// ---------------------------------------------------------------- text written by `Debug`

/// Structure of a value as written by its derived `Debug`
#[derive(Debug, Clone, PartialEq)]
pub enum Dbg {
    /// Name and fields
    Struct(String, Vec<(String, Dbg)>),
    Tuple(String, Vec<Dbg>),
    Atom(String),
}

impl Dbg {
    pub fn parse(text: &str) -> Option<Dbg> {
        let b = text.as_bytes();
        let mut i = 0;
        let d = Dbg::item(b, &mut i)?;
        (i == b.len()).then_some(d)
    }
    fn ws(b: &[u8], i: &mut usize) {
        while *i < b.len() && (b[*i] == b' ' || b[*i] == b',') {
            *i += 1;
        }
    }
    fn item(b: &[u8], i: &mut usize) -> Option<Dbg> {
        let start = *i;
        while *i < b.len() && !b" ,(){}:[]".contains(&b[*i]) {
            *i += 1;
        }
        let name = std::str::from_utf8(&b[start..*i]).ok()?.to_string();
        if b[*i..].starts_with(b" {") {
            *i += 2;
            let mut fields = vec![];
            loop {
                Dbg::ws(b, i);
                if *b.get(*i)? == b'}' {
                    *i += 1;
                    return Some(Dbg::Struct(name, fields));
                }
                let s = *i;
                while *b.get(*i)? != b':' {
                    *i += 1;
                }
                let key = std::str::from_utf8(&b[s..*i]).ok()?.to_string();
                *i += 2;
                fields.push((key, Dbg::item(b, i)?));
            }
        }
        if b.get(*i) == Some(&b'(') {
            *i += 1;
            let mut items = vec![];
            loop {
                Dbg::ws(b, i);
                if *b.get(*i)? == b')' {
                    *i += 1;
                    return Some(Dbg::Tuple(name, items));
                }
                items.push(Dbg::item(b, i)?);
            }
        }
        Some(Dbg::Atom(name))
    }
    /// Compare what was read with what was written, by name; returns the number of values compared
    pub fn matches(&self, node: &Node) -> Result<usize, String> {
        match (node, self) {
            (Node::Map(items), Dbg::Struct(name, fields)) => {
                let mut n = 0;
                for (k, v) in items {
                    let Some((_, d)) = fields.iter().find(|(f, _)| canonical(f) == canonical(k)) else {
                        continue; // stored under another name
                    };
                    n += d.matches(v).map_err(|e| format!("{name}.{k}: {e}"))?;
                }
                Ok(n)
            }
            (Node::Map(items), d) if items.iter().any(|(k, _)| k == "model") => {
                let model = &items.iter().find(|(k, _)| k == "model").expect("model").1;
                let params = items.iter().find(|(k, _)| k == "params").map(|(_, v)| v);
                match (d, params) {
                    (Dbg::Tuple(name, inner), Some(p)) if inner.len() == 1 => {
                        Ok(Dbg::Atom(name.clone()).matches(model)? + inner[0].matches(p)?)
                    }
                    (d, _) => d.matches(model),
                }
            }
            (Node::Map(items), Dbg::Tuple(name, inner)) if items.len() == 1 && inner.len() == 1 => {
                let (k, v) = &items[0];
                if canonical(k) != canonical(name) {
                    return Err(format!("{k} was read as {name}"));
                }
                Ok(1 + inner[0].matches(v)?)
            }
            (Node::Num(x, _), Dbg::Atom(a)) => match a.parse::<f64>() {
                Ok(y) if y == *x => Ok(1),
                _ => Err(format!("{x:?} was read as {a}")),
            },
            (Node::Int(x), Dbg::Atom(a)) if *a == x.to_string() => Ok(1),
            (Node::Word(w), Dbg::Atom(a)) if canonical(w) == canonical(a) => Ok(1),
            (n, d) => Err(format!("{n:?} was read as {d:?}")),
        }
    }
    pub fn atoms(&self, out: &mut Vec<String>) {
        match self {
            Dbg::Struct(_, f) => f.iter().for_each(|(_, d)| d.atoms(out)),
            Dbg::Tuple(_, f) => f.iter().for_each(|d| d.atoms(out)),
            Dbg::Atom(a) => out.push(a.clone()),
        }
    }
}

fn canonical(name: &str) -> String {
    name.chars().filter(|c| *c != '_').flat_map(char::to_lowercase).collect()
}

// ---------------------------------------------------------------- engines

/// The configuration of an engine of the implemented models
pub fn engine_node(e: &EngineCase, style: u8, legacy: bool, order: u64) -> Node {
        let n = |x: f64| Node::Num(x, style);
        let inf = f64::INFINITY;
        let hx = |s: &HxSpec, w: bool, q: bool| {
            let (model, key, x) = match s.kind {
                HxKind::Fixed(dt) => ("fixed_approach", "DT", dt),
                HxKind::Cond(ua) => ("fixed_conductance", "UA", ua),
            };
            let mut items = vec![("vol", n(s.vol)), (key, n(x)), ("R_hyd", n(s.r_hyd))];
            if w {
                items.push(("W_parasitic", n(s.w)));
            }
            if q {
                items.push(("Q_parasitic", n(s.q)));
            }
            (model, Node::Map(items.into_iter().map(|(k, v)| (k.to_string(), v)).collect()))
        };
        let common = |f: f64, vcc: f64, vce: f64| {
            vec![
                ("frequency", n(f)),
                ("V_clearance_c", n(vcc)),
                ("R_c", n(e.r_c.unwrap_or(inf))),
                ("W_parasitic_c", n(e.w_c)),
                ("V_clearance_e", n(vce)),
                ("R_e", n(e.r_e.unwrap_or(inf))),
                ("W_parasitic_e", n(e.w_e)),
                ("Q_parasitic_e", n(e.q_e)),
            ]
        };
        let (model, items) = match &e.drive {
            DriveSpec::Sin { f, phase, vsc, vcc, vse, vce } => {
                let mut v = common(*f, *vcc, *vce);
                v.extend([("phase_angle", n(*phase)), ("V_swept_c", n(*vsc)), ("V_swept_e", n(*vse))]);
                ("sinusoidal", v)
            }
            DriveSpec::Rhombic { f, vcc, vce, r, l, e, dp, dd } => {
                let mut v = common(*f, *vcc, *vce);
                v.extend([
                    ("r_crank", n(*r)),
                    ("L_conn", n(*l)),
                    ("eccentricity", n(*e)),
                    ("D_p", n(*dp)),
                    ("D_d", n(*dd)),
                ]);
                ("rhombic", v)
            }
            DriveSpec::Fourier { .. } => unreachable!(),
        };
        let ws = (model, Node::Map(items.into_iter().map(|(k, v)| (k.to_string(), v)).collect()));
        let (chx, regen, hhx) = (hx(&e.chx, true, false), hx(&e.regen, false, true), hx(&e.hhx, true, true));
        let tol = |t: (f64, f64)| Node::map([("abs", n(t.0)), ("rel", n(t.1))]);
        let gas = e.fluid.name();
        let mut node = if legacy {
            let part = |(model, params): (&str, Node)| {
                let name = match model {
                    "fixed_approach" => "FixedApproach",
                    "fixed_conductance" => "FixedConductance",
                    "sinusoidal" => "Sinusoidal",
                    _ => "Rhombic",
                };
                Node::map([("model", Node::word(name)), ("params", params)])
            };
            let name = if gas == "helium" { "Helium" } else { "Hydrogen" };
            Node::map([
                (
                    "fluid",
                    Node::map([
                        ("model", Node::word("IdealGas")),
                        ("params", Node::map([("name", Node::word(name))])),
                    ]),
                ),
                ("ws", part(ws)),
                ("chx", part(chx)),
                ("regen", part(regen)),
                ("hhx", part(hhx)),
                (
                    "solver",
                    Node::map([
                        ("innerLoopTolerance", tol(e.set.inner)),
                        ("outerLoopTolerance", tol(e.set.outer)),
                        ("odeTolerance", tol(e.set.ode)),
                        ("odeSolver", Node::word("ode45")),
                        ("timeResolution", Node::Int(e.set.resolution)),
                    ]),
                ),
                (
                    "conditions",
                    Node::map([("T_cold", n(e.t_sink)), ("T_hot", n(e.t_source)), ("P_0", n(e.p0))]),
                ),
            ])
        } else {
            let part = |(model, params): (&str, Node)| Node::map([(model, params)]);
            Node::map([
                (
                    "engine",
                    Node::map([
                        ("fluid", Node::map([(gas, Node::map([("model", Node::word("ideal_gas"))]))])),
                        (
                            "components",
                            Node::map([
                                ("ws", part(ws)),
                                ("chx", part(chx)),
                                ("regen", part(regen)),
                                ("hhx", part(hhx)),
                            ]),
                        ),
                    ]),
                ),
                (
                    "solver",
                    Node::map([
                        (
                            "inner_loop",
                            Node::map([
                                ("tolerance", tol(e.set.inner)),
                                ("max_iterations", Node::Int(e.set.max_inner as u32)),
                            ]),
                        ),
                        (
                            "outer_loop",
                            Node::map([
                                ("tolerance", tol(e.set.outer)),
                                ("max_iterations", Node::Int(e.set.max_outer as u32)),
                            ]),
                        ),
                        (
                            "ode",
                            Node::map([
                                ("tolerance", tol(e.set.ode)),
                                ("num_timesteps", Node::Int(e.set.resolution)),
                            ]),
                        ),
                    ]),
                ),
                (
                    "conditions",
                    Node::map([
                        ("temp_sink", n(e.t_sink)),
                        ("temp_source", n(e.t_source)),
                        ("pres_zero", n(e.p0)),
                    ]),
                ),
            ])
        };
        node.shuffle(order);
        node
    }
