//! Machinery shared by the property checks of sett-rs
#![allow(non_snake_case, clippy::all)]
pub mod case;
pub mod conf;
pub mod pairs;
pub mod parts;
pub mod phys;
pub mod rt;

/// Fail the case unless `|a - b| <= tol`
#[macro_export]
macro_rules! near {
    ($obs:expr, $name:expr, $a:expr, $b:expr, $tol:expr, $($ctx:tt)*) => {{
        let (a, b, tol): (f64, f64, f64) = ($a, $b, $tol);
        let d = (a - b).abs();
        if tol > 0. { $obs.max($name, d / tol); }
        if !(d <= tol) {
            return Err(format!("{}: {a:e} != {b:e} (difference {d:e}, allowed {tol:e}) {}", $name, format!($($ctx)*)));
        }
    }};
}

#[macro_export]
macro_rules! must {
    ($cond:expr, $($msg:tt)*) => {
        if !$cond { return Err(format!($($msg)*)); }
    };
}
