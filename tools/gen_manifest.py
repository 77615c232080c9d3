#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
T = {
"C01": ("property-based testing: random converged engines against an independent mass ledger", "the reported cycle of random engines; trusts the crate's fluid values (C15/C16) and drive volumes (C13/C14)"),
"C02": ("property-based testing: instantaneous and accumulated energy ledger over random engines", "the reported cycle of random engines; accumulated ledger only for consistent fluids"),
"C03": ("property-based testing: per-volume upwind energy balance over random engines", "every flow direction pattern that random engines reach; points within the error of a flow reversal accept either side"),
"C04": ("property-based testing: first law balance of reported results over random engines", "consistent fluids; quadrature error bounded from the reported points"),
"C05": ("property-based testing: wall heat law, metamorphic limits over random engines", "random resistances from near isothermal to adiabatic"),
"C06": ("property-based testing: cyclic invariant of reported cycle over random engines and tolerances", "every reported cycle of random engines; flows at both ends compared at a scale derived from the temperatures' tolerance"),
"C07": ("property-based testing: fixed point re-evaluation over random engines", "public exchanger models plus closures; tolerances of the run itself"),
"C08": ("model-based testing: scripted exchangers and counted cycles against a reference loop", "counts observed from outside through user components; iterations next to a tolerance limit accept both outcomes"),
"C09": ("property-based testing: exact grid oracle over random resolutions and periods", "resolutions from 2 to thousands, frequencies over six decades"),
"C10": ("property-based testing: recomputed summaries of random and synthetic engines", "averages compared with mean of reported points up to quadrature convention"),
"C11": ("property-based testing: independent evaluation of power, torque, heat and efficiency definitions", "random and synthetic cycles; ambiguous parasitics are zero"),
"C12": ("property-based testing: pressure drop oracle and metamorphic invariance of the cycle", "random and synthetic cycles; bitwise invariance of the cycle"),
"C13": ("property-based testing: crank kinematics oracle and numeric derivative", "random geometry, phase, frequency and time, rounding level tolerances"),
"C14": ("property-based testing: rhombic linkage oracle and numeric derivative", "random geometry with l > r + e, rounding level tolerances"),
"C15": ("property-based testing: numeric derivatives and literature values over the (T, P) domain", "temperatures and pressures over the domain of the gas models"),
"C16": ("property-based testing: thermodynamic identity over the (T, P) domain", "known offsets of the built-in gases are listed as findings by their exact constant"),
"C17": ("property-based testing: heat transfer laws evaluated independently over random states", "random states, including extreme capacity rates"),
"C18": ("differential property-based testing: configuration against hand-built engine, one-value mutations, child processes", "random values of every field of every implemented model"),
"C19": ("differential property-based testing: legacy against modern configuration trees", "random trees over all models; compared by Debug text, exact floats"),
"C20": ("round-trip and mutation property-based testing over three serialisation formats", "random trees over all models; one corruption at a time"),
"C21": ("metamorphic property-based testing: similarity transformations", "random ideal gas engines; accuracy of the integrator with tightened tolerances"),
"C22": ("differential property-based testing: LU, QR and SVD runs of the same engine", "LU and QR to the accuracy of the integrator; SVD to its own rounding error"),
"C23": ("fuzzing: extreme engines under panic guard and call budgets", "values over the whole range of doubles; a call budget stands for termination"),
"C24": ("property-based testing: exact boundary oracle of the tolerance", "bit-exact neighbours of both limits and special values"),
"C25": ("metamorphic property-based testing: resolutions of the same engine", "random fixed-approach engines"),
"C26": ("differential property-based testing: independent integrator of the five-volume physics", "own equations, own linear solve, own adaptive integrator; differences bounded by tolerances"),
"C27": ("property-based testing with recording components", "states recorded by user components against the reported cycle"),
"C28": ("metamorphic property-based testing: initial guesses of user exchangers", "pairs that both converge"),
"C29": ("metamorphic property-based testing: repeated, interleaved and threaded runs compared bit by bit", "whatever schedules eight threads give"),
"C30": ("metamorphic property-based testing: mirrored and time shifted engines", "user drive with harmonics; accuracy of the integrator"),
"C31": ("metamorphic property-based testing: exchangers replaced by others of the same temperatures", "pairs that both converge; bit by bit for losses"),
"C32": ("metamorphic property-based testing: engines scaled in temperature and gas properties, shifted reference energy", "user defined consistent gases; accuracy of the integrator"),
"C33": ("property-based testing: state updates from synthetic cycles against a reference model", "random series, imbalances and tolerances, with temperatures close to the limits"),
"C34": ("metamorphic property-based testing: pressure dependent drives against constant ones, recorded calls", "smooth dependences of all quantities; runs that converge"),
}
NA = {}
checks, na = [], []
for line in (root / "properties.jsonl").read_text().splitlines():
    id = json.loads(line)["id"]
    if id in NA:
        na.append(dict(property=id, reason=NA[id])); continue
    if not (root / f"harness/src/bin/{id.lower()}.rs").exists():
        na.append(dict(property=id, reason="its check is still being built")); continue
    t, n = T[id]
    checks.append(dict(property=id, quick_cmd=f"./check {id}", thorough_cmd=f"VERIF_TIER=thorough ./check {id}",
                       technique=t, level="exploration", level_note="Random search: " + n + "."))
doc = dict(version=1, setup_cmd="cd harness && CARGO_NET_OFFLINE=true cargo build --release --offline --bins",
           checks=checks, not_applicable=na,
           notes="No hooks: everything is reached through the public interface of the crate. Known findings and repaired defects: known-findings.txt.")
(root / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
