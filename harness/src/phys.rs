//! Independent formulation of the physics: ledgers over reported cycles and a reference simulation.
//!
//! Nothing here follows the structure of sett-rs: derivatives are recovered from reported flows, and the
//! reference simulation eliminates the balances of five well-mixed volumes to one scalar equation for dP/dt
//! per combination of flow directions.

use sett_rs::fluid::Fluid;
use sett_rs::Engine;

use crate::case::{EngineCase, HxKind};

/// Fluid properties at a state
#[derive(Clone, Copy)]
pub struct Pr {
    pub d: f64,
    pub u: f64,
    pub h: f64,
    pub dp: f64,
    pub dt: f64,
    pub up: f64,
    pub ut: f64,
}

pub fn pr(f: &dyn Fluid, t: f64, p: f64) -> Pr {
    Pr {
        d: f.dens(t, p),
        u: f.inte(t, p),
        h: f.enth(t, p),
        dp: f.dd_dP_T(t, p),
        dt: f.dd_dT_P(t, p),
        up: f.du_dP_T(t, p),
        ut: f.du_dT_P(t, p),
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Temps {
    pub k: f64,
    pub rc: f64,
    pub r: f64,
    pub rh: f64,
    pub l: f64,
}

/// The five volumes of an engine at given exchanger temperatures
pub struct Model<'a> {
    pub fluid: &'a dyn Fluid,
    /// (V_c, dV_c, V_e, dV_e)
    pub vol: Box<dyn Fn(f64) -> (f64, f64, f64, f64) + 'a>,
    pub res_c: f64,
    pub res_e: f64,
    pub vk: f64,
    pub vr: f64,
    pub vl: f64,
    pub t: Temps,
    pub period: f64,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Sol {
    pub m: [f64; 4],
    pub qk: f64,
    pub qr: f64,
    pub ql: f64,
    pub dtc: f64,
    pub dte: f64,
    pub dp: f64,
    pub consistent: bool,
}

impl<'a> Model<'a> {
    /// The model of a run engine, as seen through its own components
    pub fn of_engine<T: Fluid>(e: &'a Engine<T>) -> Model<'a> {
        let ws = e.state.ws();
        let vols = e.components.ws.volumes(&ws);
        let res = e.components.ws.thermal_resistance(&ws);
        let t = e.state.temp;
        Model {
            fluid: &e.state.fluid,
            vol: Box::new(move |time| {
                let (c, x) = vols(time);
                (c.value, c.deriv, x.value, x.deriv)
            }),
            res_c: res.comp,
            res_e: res.exp,
            vk: e.components.chx.volume(),
            vr: e.components.regen.volume(),
            vl: e.components.hhx.volume(),
            t: Temps {
                k: t.chx,
                rc: t.regen.cold,
                r: t.regen.avg,
                rh: t.regen.hot,
                l: t.hhx,
            },
            period: 1. / e.components.ws.frequency(&ws),
        }
    }

    /// The model described by a case, at given exchanger temperatures
    pub fn of_case(case: &'a EngineCase, fluid: &'a dyn Fluid, t: Temps) -> Model<'a> {
        Model {
            fluid,
            vol: Box::new(move |time| case.drive.volumes(time)),
            res_c: case.r_c.unwrap_or(f64::INFINITY),
            res_e: case.r_e.unwrap_or(f64::INFINITY),
            vk: case.chx.vol,
            vr: case.regen.vol,
            vl: case.hhx.vol,
            t,
            period: 1. / case.drive.frequency(),
        }
    }

    /// Mass per volume: comp, chx, regen, hhx, exp
    pub fn masses(&self, time: f64, p: f64, tc: f64, te: f64) -> [f64; 5] {
        let (vc, _, ve, _) = (self.vol)(time);
        let f = self.fluid;
        [
            vc * f.dens(tc, p),
            self.vk * f.dens(self.t.k, p),
            self.vr * f.dens(self.t.r, p),
            self.vl * f.dens(self.t.l, p),
            ve * f.dens(te, p),
        ]
    }

    pub fn energies(&self, time: f64, p: f64, tc: f64, te: f64) -> [f64; 5] {
        let m = self.masses(time, p, tc, te);
        let f = self.fluid;
        [
            m[0] * f.inte(tc, p),
            m[1] * f.inte(self.t.k, p),
            m[2] * f.inte(self.t.r, p),
            m[3] * f.inte(self.t.l, p),
            m[4] * f.inte(te, p),
        ]
    }

    pub fn wall_c(&self, tc: f64) -> f64 {
        if self.res_c.is_infinite() {
            0.
        } else {
            (tc - self.t.k) / self.res_c
        }
    }

    /// From the gas in the expansion space to the hot exchanger
    pub fn wall_e(&self, te: f64) -> f64 {
        if self.res_e.is_infinite() {
            0.
        } else {
            (te - self.t.l) / self.res_e
        }
    }

    /// Solve the balances; `hint` is preferred when several flow directions are consistent
    pub fn solve(&self, time: f64, p: f64, tc: f64, te: f64, hint: Option<(bool, bool)>) -> Sol {
        let f = self.fluid;
        let (vc, dvc, ve, dve) = (self.vol)(time);
        let c = pr(f, tc, p);
        let e = pr(f, te, p);
        let k = pr(f, self.t.k, p);
        let r = pr(f, self.t.r, p);
        let l = pr(f, self.t.l, p);
        let h_rc = f.enth(self.t.rc, p);
        let h_rh = f.enth(self.t.rh, p);
        let qc = self.wall_c(tc);
        let qe = self.wall_e(te);
        let store = self.vk * k.dp + self.vr * r.dp + self.vl * l.dp;

        // Mass leaving a space is a + b dP, with dT = ta + tb dP
        let space = |v: f64, dv: f64, g: &Pr, q: f64, h: f64| {
            let den = v * (g.d * g.ut + (g.u - h) * g.dt);
            let ta = -((g.d * (g.u - h) + p) * dv + q) / den;
            let tb = -v * (g.d * g.up + (g.u - h) * g.dp) / den;
            let a = -(v * g.dt * ta + g.d * dv);
            let b = -v * (g.dp + g.dt * tb);
            (a, b, ta, tb)
        };
        let attempt = |ck: bool, le: bool| {
            let (a1, b1, ta1, tb1) = space(vc, dvc, &c, qc, if ck { c.h } else { k.h });
            // le positive means gas enters the expansion space with the enthalpy of the exchanger
            let (a2, b2, ta2, tb2) = space(ve, dve, &e, qe, if le { l.h } else { e.h });
            // m_ck = a1 + b1 dP; m_le = -(a2 + b2 dP); m_ck - m_le = store dP
            let dp = (a1 + a2) / (store - b1 - b2);
            let mck = a1 + b1 * dp;
            let mle = -(a2 + b2 * dp);
            let mkr = mck - self.vk * k.dp * dp;
            let mrl = mkr - self.vr * r.dp * dp;
            let hck = if mck >= 0. { c.h } else { k.h };
            let hkr = if mkr >= 0. { k.h } else { h_rc };
            let hrl = if mrl >= 0. { h_rh } else { l.h };
            let hle = if mle >= 0. { l.h } else { e.h };
            let qk = mck * hck - mkr * hkr - self.vk * (k.d * k.up + k.u * k.dp) * dp;
            let qr = mkr * hkr - mrl * hrl - self.vr * (r.d * r.up + r.u * r.dp) * dp;
            let ql = -(mrl * hrl - mle * hle) + self.vl * (l.d * l.up + l.u * l.dp) * dp;
            Sol {
                m: [mck, mkr, mrl, mle],
                qk,
                qr,
                ql,
                dtc: ta1 + tb1 * dp,
                dte: ta2 + tb2 * dp,
                dp,
                consistent: (mck >= 0.) == ck && (mle >= 0.) == le,
            }
        };
        if let Some((ck, le)) = hint {
            let s = attempt(ck, le);
            if s.consistent {
                return s;
            }
        }
        let mut fallback: Option<Sol> = None;
        for (ck, le) in [(true, true), (true, false), (false, true), (false, false)] {
            let s = attempt(ck, le);
            if s.consistent {
                return s;
            }
            let size = |s: &Sol| s.m[0].abs() + s.m[3].abs();
            if fallback.as_ref().is_none_or(|b| size(&s) < size(b)) {
                fallback = Some(s);
            }
        }
        fallback.unwrap()
    }

    /// Integrate the state over the given times (Dormand-Prince, adaptive); one state per time
    pub fn integrate(
        &self,
        times: &[f64],
        y0: [f64; 3],
        rtol: f64,
        max_steps: usize,
    ) -> Option<Vec<[f64; 3]>> {
        let mut out = Vec::with_capacity(times.len());
        let mut y = y0;
        out.push(y);
        let mut hint = None;
        let mut h = self.period / 400.;
        let mut steps = 0usize;
        for w in times.windows(2) {
            let (mut t, end) = (w[0], w[1]);
            while t < end {
                steps += 1;
                if steps > max_steps {
                    return None;
                }
                let last = t + h >= end;
                let hh = if last { end - t } else { h };
                let mut rhs = |time: f64, y: &[f64; 3]| {
                    let s = self.solve(time, y[0], y[1], y[2], hint);
                    if s.consistent {
                        hint = Some((s.m[0] >= 0., s.m[3] >= 0.));
                    }
                    [s.dp, s.dtc, s.dte]
                };
                let (yn, err) = dp54(&mut rhs, t, &y, hh);
                let mut e = 0f64;
                for i in 0..3 {
                    e = e.max(err[i].abs() / (rtol * yn[i].abs().max(y[i].abs()) + 1e-300));
                }
                if !e.is_finite() || yn[1] <= 0. || yn[2] <= 0. || yn[0] <= 0. {
                    h = hh * 0.2;
                    if h < self.period * 1e-12 {
                        return None;
                    }
                    continue;
                }
                // Kinks where a flow reverses limit the order; accept tiny steps there
                if e <= 1. || hh < self.period * 1e-7 {
                    t = if last { end } else { t + hh };
                    y = yn;
                    let grow = (0.9 * e.max(1e-10).powf(-0.2)).clamp(0.3, 4.);
                    if !last || grow < 1. {
                        h = hh * grow;
                    } else {
                        h = h.max(hh * grow);
                    }
                    h = h.min(self.period / 40.);
                } else {
                    h = hh * (0.9 * e.powf(-0.2)).clamp(0.1, 0.9);
                }
            }
            out.push(y);
        }
        Some(out)
    }
}

fn dp54(
    f: &mut dyn FnMut(f64, &[f64; 3]) -> [f64; 3],
    t: f64,
    y: &[f64; 3],
    h: f64,
) -> ([f64; 3], [f64; 3]) {
    const A: [&[f64]; 6] = [
        &[1. / 5.],
        &[3. / 40., 9. / 40.],
        &[44. / 45., -56. / 15., 32. / 9.],
        &[
            19372. / 6561.,
            -25360. / 2187.,
            64448. / 6561.,
            -212. / 729.,
        ],
        &[
            9017. / 3168.,
            -355. / 33.,
            46732. / 5247.,
            49. / 176.,
            -5103. / 18656.,
        ],
        &[
            35. / 384.,
            0.,
            500. / 1113.,
            125. / 192.,
            -2187. / 6784.,
            11. / 84.,
        ],
    ];
    const C: [f64; 6] = [0.2, 0.3, 0.8, 8. / 9., 1., 1.];
    const E: [f64; 7] = [
        71. / 57600.,
        0.,
        -71. / 16695.,
        71. / 1920.,
        -17253. / 339200.,
        22. / 525.,
        -1. / 40.,
    ];
    let mut k = [[0f64; 3]; 7];
    k[0] = f(t, y);
    let mut yn = *y;
    for s in 0..6 {
        yn = *y;
        for (j, a) in A[s].iter().enumerate() {
            for i in 0..3 {
                yn[i] += h * a * k[j][i];
            }
        }
        k[s + 1] = f(t + C[s] * h, &yn);
    }
    let mut err = [0f64; 3];
    for i in 0..3 {
        for s in 0..7 {
            err[i] += h * E[s] * k[s][i];
        }
    }
    (yn, err)
}

pub fn log_mean(a: f64, b: f64) -> f64 {
    let x = a / b;
    if (x - 1.).abs() < 1e-4 {
        // series of (x - 1) / ln x
        let d = x - 1.;
        b * (1. + d / 2. - d * d / 12. + d * d * d / 24.)
    } else {
        b * (x - 1.) / x.ln()
    }
}

/// Temperatures for given approaches
pub fn temps(t_sink: f64, t_source: f64, ak: f64, ar: f64, al: f64) -> Temps {
    let k = t_sink + ak;
    let l = t_source - al;
    Temps {
        k,
        rc: k + ar,
        r: log_mean(l - 0.5 * ar, k + 0.5 * ar),
        rh: l - ar,
        l,
    }
}

pub fn trapz(x: &[f64], y: &[f64]) -> f64 {
    let mut s = 0.;
    for i in 1..x.len() {
        s += (x[i] - x[i - 1]) * 0.5 * (y[i] + y[i - 1]);
    }
    s
}

/// Integral by Simpson's rule over an even number of equal intervals
pub fn simpson(x: &[f64], y: &[f64]) -> f64 {
    let mut s = 0.;
    let mut i = 0;
    while i + 2 < x.len() {
        s += (x[i + 2] - x[i]) / 6. * (y[i] + 4. * y[i + 1] + y[i + 2]);
        i += 2;
    }
    s
}

pub fn max_abs(y: &[f64]) -> f64 {
    y.iter().fold(0f64, |a, b| a.max(b.abs()))
}

pub fn mean(x: &[f64], y: &[f64]) -> f64 {
    trapz(x, y) / (x[x.len() - 1] - x[0])
}

/// Averages over a cycle that exchangers are shown
#[derive(Clone, Copy, Debug)]
pub struct Averages {
    pub p: f64,
    pub p_max: f64,
    pub p_min: f64,
    pub p_zero: f64,
    /// chx, regen, hhx
    pub m: [f64; 3],
    pub q: [f64; 3],
}

/// The series of a cycle
pub struct Cyc<'a> {
    pub t: &'a [f64],
    pub p: &'a [f64],
    pub tc: &'a [f64],
    pub te: &'a [f64],
    pub m: [&'a [f64]; 4],
    pub qk: &'a [f64],
    pub qr: &'a [f64],
    pub ql: &'a [f64],
}

impl<'a> Cyc<'a> {
    pub fn of<T: Fluid>(e: &'a Engine<T>) -> Cyc<'a> {
        let v = &e.values;
        Cyc {
            t: &v.time,
            p: &v.P,
            tc: &v.T_c,
            te: &v.T_e,
            m: [&v.m_dot_ck, &v.m_dot_kr, &v.m_dot_rl, &v.m_dot_le],
            qk: &v.Q_dot_k,
            qr: &v.Q_dot_r,
            ql: &v.Q_dot_l,
        }
    }
    pub fn len(&self) -> usize {
        self.t.len()
    }
    pub fn max_flow(&self) -> f64 {
        self.m
            .iter()
            .flat_map(|s| s.iter())
            .fold(0f64, |a, b| a.max(b.abs()))
    }
    pub fn max_heat(&self) -> f64 {
        [self.qk, self.qr, self.ql]
            .iter()
            .flat_map(|s| s.iter())
            .fold(0f64, |a, b| a.max(b.abs()))
    }
    pub fn averages(&self, m: &Model) -> Averages {
        let avg_abs = |a: &[f64], b: &[f64]| {
            let y: Vec<f64> = a.iter().zip(b).map(|(a, b)| ((a + b) / 2.).abs()).collect();
            mean(self.t, &y)
        };
        let qc: Vec<f64> = self.tc.iter().map(|t| m.wall_c(*t)).collect();
        let qe: Vec<f64> = self.te.iter().map(|t| m.wall_e(*t)).collect();
        Averages {
            p: mean(self.t, self.p),
            p_max: self.p.iter().copied().fold(f64::MIN, f64::max),
            p_min: self.p.iter().copied().fold(f64::MAX, f64::min),
            p_zero: self.p[0],
            m: [
                avg_abs(self.m[0], self.m[1]),
                avg_abs(self.m[1], self.m[2]),
                avg_abs(self.m[2], self.m[3]),
            ],
            q: [
                mean(self.t, self.qk) + mean(self.t, &qc),
                mean(self.t, self.qr),
                mean(self.t, self.ql) - mean(self.t, &qe),
            ],
        }
    }
}

/// Approach of an exchanger of a case, from its definition
pub fn approach_hx(kind: HxKind, q: f64, c: f64) -> f64 {
    match kind {
        HxKind::Fixed(dt) => dt,
        // effectiveness e = 1 - exp(-UA/C): q = e C (dT_in) and the gas leaves at dT_in (1 - e)
        HxKind::Cond(ua) => q / c / (ua / c).exp_m1(),
    }
}

pub fn approach_regen(kind: HxKind, c: f64, tk: f64, tl: f64) -> f64 {
    match kind {
        HxKind::Fixed(dt) => dt,
        HxKind::Cond(ua) => (tl - tk) / (1. + 0.5 * ua / c),
    }
}

/// Relative difference with an absolute floor
pub fn rel(a: f64, b: f64, floor: f64) -> f64 {
    let d = (a - b).abs();
    if d == 0. {
        0.
    } else {
        let r = d / a.abs().max(b.abs()).max(floor);
        if r.is_nan() {
            f64::INFINITY
        } else {
            r
        }
    }
}

/// What the reported flows say about the rates of change at one reported time
///
/// The pressure follows from mass stored in the exchangers and the temperatures of the spaces from mass stored
/// in the spaces, so energy balances remain to be checked.
pub struct Rates {
    pub m: [f64; 4],
    pub dp: f64,
    pub dtc: f64,
    pub dte: f64,
    pub vc: f64,
    pub dvc: f64,
    pub ve: f64,
    pub dve: f64,
    pub c: Pr,
    pub k: Pr,
    pub r: Pr,
    pub l: Pr,
    pub e: Pr,
    pub p: f64,
    /// From the gas to the exchangers
    pub qc: f64,
    pub qe: f64,
    pub qk: f64,
    pub qr: f64,
    pub ql: f64,
}

impl Rates {
    pub fn at(m: &Model, c: &Cyc, i: usize) -> Rates {
        let f = m.fluid;
        let (p, tc, te) = (c.p[i], c.tc[i], c.te[i]);
        let (vc, dvc, ve, dve) = (m.vol)(c.t[i]);
        let flows = [c.m[0][i], c.m[1][i], c.m[2][i], c.m[3][i]];
        let (pc, pk, pr_, pl, pe) = (
            pr(f, tc, p),
            pr(f, m.t.k, p),
            pr(f, m.t.r, p),
            pr(f, m.t.l, p),
            pr(f, te, p),
        );
        let dp = (flows[0] - flows[3]) / (m.vk * pk.dp + m.vr * pr_.dp + m.vl * pl.dp);
        let dtc = (-flows[0] - pc.d * dvc - vc * pc.dp * dp) / (vc * pc.dt);
        let dte = (flows[3] - pe.d * dve - ve * pe.dp * dp) / (ve * pe.dt);
        Rates {
            m: flows,
            dp,
            dtc,
            dte,
            vc,
            dvc,
            ve,
            dve,
            c: pc,
            k: pk,
            r: pr_,
            l: pl,
            e: pe,
            p,
            qc: m.wall_c(tc),
            qe: m.wall_e(te),
            qk: c.qk[i],
            qr: c.qr[i],
            ql: c.ql[i],
        }
    }
    /// Rates at which energy is stored: comp, chx, regen, hhx, exp
    pub fn stored(&self, m: &Model) -> [f64; 5] {
        let hx = |v: f64, g: &Pr| v * (g.d * g.up + g.u * g.dp) * self.dp;
        let space = |v: f64, dv: f64, g: &Pr, dt: f64| {
            g.d * g.u * dv
                + v * (g.d * g.up + g.u * g.dp) * self.dp
                + v * (g.d * g.ut + g.u * g.dt) * dt
        };
        [
            space(self.vc, self.dvc, &self.c, self.dtc),
            hx(m.vk, &self.k),
            hx(m.vr, &self.r),
            hx(m.vl, &self.l),
            space(self.ve, self.dve, &self.e, self.dte),
        ]
    }
    /// Sum of the magnitudes of everything that enters the balances
    pub fn scale(&self, m: &Model) -> f64 {
        let space = |v: f64, dv: f64, g: &Pr, dt: f64| {
            (g.d * g.u * dv).abs()
                + (v * g.d * g.up * self.dp).abs()
                + (v * g.u * g.dp * self.dp).abs()
                + (v * g.d * g.ut * dt).abs()
                + (v * g.u * g.dt * dt).abs()
                + (self.p * dv).abs()
        };
        let hx = |v: f64, g: &Pr| (v * g.d * g.up * self.dp).abs() + (v * g.u * g.dp * self.dp).abs();
        let h = [&self.c, &self.k, &self.r, &self.l, &self.e]
            .iter()
            .map(|g| g.h.abs() + g.u.abs())
            .fold(0., f64::max);
        let flow: f64 = self.m.iter().map(|x| x.abs()).sum();
        space(self.vc, self.dvc, &self.c, self.dtc)
            + space(self.ve, self.dve, &self.e, self.dte)
            + hx(m.vk, &self.k)
            + hx(m.vr, &self.r)
            + hx(m.vl, &self.l)
            + h * flow
            + self.qc.abs()
            + self.qe.abs()
            + self.qk.abs()
            + self.qr.abs()
            + self.ql.abs()
    }
}
