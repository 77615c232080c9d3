//! C20: TOML, JSON and YAML configurations are equivalent and complete
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sett_rs::{Config, Legacy};
use settlab::conf::*;
use settlab::must;
use settlab::rt::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    conf: ConfCase,
    legacy: bool,
    /// Order of keys in each format
    order: [u64; 3],
    /// What is corrupted
    pick: u32,
    how: u8,
}

fn case() -> BoxedStrategy<Case> {
    prop::bool::weighted(0.35)
        .prop_flat_map(|legacy| (any_conf(legacy), Just(legacy), any::<[u64; 3]>(), any::<u32>(), 0u8..6))
        .prop_map(|(conf, legacy, order, pick, how)| Case { conf, legacy, order, pick, how })
        .boxed()
}

enum Read {
    Modern(Config),
    Legacy(Legacy),
}

impl PartialEq for Read {
    fn eq(&self, other: &Read) -> bool {
        match (self, other) {
            (Read::Modern(a), Read::Modern(b)) => a == b,
            (Read::Legacy(a), Read::Legacy(b)) => a == b,
            _ => false,
        }
    }
}

impl Read {
    fn text(&self) -> String {
        match self {
            Read::Modern(c) => format!("{c:?}"),
            Read::Legacy(c) => format!("{c:?}"),
        }
    }
}

fn read_any(legacy: bool, text: &str, format: Format) -> Result<Read, String> {
    if legacy {
        read::<Legacy>(text, format).map(Read::Legacy)
    } else {
        read::<Config>(text, format).map(Read::Modern)
    }
}

fn node(c: &Case) -> Node {
    if c.legacy {
        c.conf.legacy()
    } else {
        c.conf.modern(None)
    }
}

fn in_format(c: &Case, node: &Node, f: usize) -> String {
    let mut n = node.clone();
    n.shuffle(c.order[f]);
    write(&n, FORMATS[f])
}

fn formats(c: &Case, obs: &mut Obs) -> Verdict {
    let node = node(c);
    let kind = if c.legacy { "legacy" } else { "modern" };
    obs.label(kind);
    obs.nontrivial();
    let mut first: Option<Read> = None;
    for (f, format) in FORMATS.into_iter().enumerate() {
        let text = in_format(c, &node, f);
        let got = read_any(c.legacy, &text, format)
            .map_err(|e| format!("{kind} {format:?} configuration is rejected: {e}\n{text}"))?;
        let shown = got.text();
        let dbg = Dbg::parse(&shown);
        if let Some(dbg) = &dbg {
            let n = dbg
                .matches(&node)
                .map_err(|e| format!("{kind} {format:?}: {e}\n{text}\n{shown}"))?;
            if n == node.leaves().len() || n > node.leaves().len() {
                obs.label("every value seen by name");
            }
            // Whatever the names are, every value is there
            let mut atoms = vec![];
            dbg.atoms(&mut atoms);
            for path in node.leaves() {
                if let Node::Num(x, _) = node.at(&path) {
                    must!(
                        atoms.iter().any(|a| a.parse::<f64>() == Ok(*x)),
                        "{kind} {format:?}: {x:?} of {} is lost\n{text}\n{shown}",
                        path.join(".")
                    );
                }
            }
        }
        if let Some(first) = &first {
            must!(
                *first == got && first.text() == shown,
                "{kind} {format:?} configuration differs from TOML:\n{}\n{shown}",
                first.text()
            );
        }
        first.get_or_insert(got);
    }
    // Without the reader of configuration files
    let text = in_format(c, &node, 1);
    let direct = if c.legacy {
        serde_json::from_str::<Legacy>(&text).map(Read::Legacy)
    } else {
        serde_json::from_str::<Config>(&text).map(Read::Modern)
    };
    match (direct, first) {
        (Ok(a), Some(b)) => must!(a == b, "{kind} JSON read directly differs: {} {}", a.text(), b.text()),
        (Err(e), _) => return Err(format!("{kind} JSON read directly is rejected: {e}\n{text}")),
        _ => {}
    }
    Ok(())
}

/// Change one value to another one of the same type
fn change(node: &mut Node, n: u32) -> bool {
    match node {
        Node::Num(x, _) => {
            let y = match n % 4 {
                _ if x.is_infinite() => 1.,
                0 => -*x,
                1 => *x * 1.000000001,
                2 => 0.,
                _ => *x + 1.,
            };
            let changed = y != *x;
            *x = y;
            changed
        }
        Node::Int(i) => {
            *i = i.wrapping_add(1 + n % 7);
            true
        }
        _ => false,
    }
}

fn changes(c: &Case, obs: &mut Obs) -> Verdict {
    let node = node(c);
    let leaves = node.leaves();
    let path = &leaves[c.pick as usize % leaves.len()];
    let mut other = node.clone();
    if !change(other.at_mut(path), u32::from(c.how)) {
        return Ok(());
    }
    obs.nontrivial();
    obs.label(if c.legacy { "legacy" } else { "modern" });
    let f = c.order[0] as usize % 3;
    let format = FORMATS[f];
    let (a, b) = (in_format(c, &node, f), in_format(c, &other, f));
    let a = read_any(c.legacy, &a, format).map_err(|e| format!("rejected: {e}\n{a}"))?;
    let b = read_any(c.legacy, &b, format).map_err(|e| format!("rejected: {e}\n{b}"))?;
    must!(
        a != b && a.text() != b.text(),
        "{format:?}: changing {} from {:?} to {:?} changes nothing: {}",
        path.join("."),
        node.at(path),
        other.at(path),
        a.text()
    );
    Ok(())
}

fn corrupted(c: &Case, obs: &mut Obs) -> Verdict {
    let mut node = node(c);
    let leaves = node.leaves();
    let path = leaves[c.pick as usize % leaves.len()].clone();
    let is_word = matches!(node.at(&path), Node::Word(_));
    let what = match c.how {
        0 => {
            node.remove(&path);
            "value removed"
        }
        1 => {
            let name = format!("{}_", path.last().expect("leaf"));
            node.rename(&path, &name);
            "value misspelt"
        }
        2 => {
            *node.at_mut(&path) = match c.pick / 1024 % 3 {
                0 => Node::List(vec![Node::Num(1., 0)]),
                1 => Node::map([("value", Node::Num(1., 0))]),
                _ => Node::List(vec![]),
            };
            "list or section for a value"
        }
        3 => {
            *node.at_mut(&path) = if is_word && c.pick / 1024 % 2 == 0 {
                Node::Int(3)
            } else {
                Node::word("unobtainium")
            };
            "wrong word or a number for a word"
        }
        4 => {
            let sections = node.sections();
            let path = &sections[c.pick as usize % sections.len()];
            node.remove(path);
            "section removed"
        }
        _ => {
            let sections = node.sections();
            let path = &sections[c.pick as usize % sections.len()];
            match c.pick / 1024 % 3 {
                0 => *node.at_mut(path) = Node::Num(1., 0),
                1 => {
                    let name = format!("{}_", path.last().expect("section"));
                    node.rename(path, &name);
                }
                _ => *node.at_mut(path) = Node::List(vec![]),
            }
            "section misspelt or replaced by a value"
        }
    };
    obs.label(what);
    obs.nontrivial();
    for (f, format) in FORMATS.into_iter().enumerate() {
        let text = in_format(c, &node, f);
        match read_any(c.legacy, &text, format) {
            Ok(got) => {
                return Err(format!("{what}, but the {format:?} configuration is read as {}\n{text}", got.text()))
            }
            Err(e) => must!(!e.starts_with("syntax"), "not even {format:?}: {e}\n{text}"),
        }
    }
    Ok(())
}

fn main() {
    Check::new(
        "C20",
        "Random modern and legacy configurations over every model of every component (also those that can't be run yet), written as TOML, JSON and YAML with keys in random order and numbers in random notations; single changes and single corruptions of them. Non-trivial: the text is syntactically valid.",
    )
    .assume("Lenient conversions of the config crate (booleans and numeric text as numbers, rounding fractions to integers, wrapping of integers beyond 32 bits, unknown extra keys) are not judged")
    .assume("Infinity occurs only in thermal resistances; it is written as text where the format has no infinity")
    .leg("formats", 30000, 800000, case, formats)
    .leg("changes", 30000, 800000, case, changes)
    .leg("corrupted", 50000, 1600000, case, corrupted)
    .run()
}
