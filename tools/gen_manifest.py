"""Write MANIFEST.json from properties.jsonl and the property modules."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection"
# what kind of search each check is, besides being seeded
LEVEL = {p: "exploration" for p in ("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 "
                                     "C11 C12 C13 C14 C15 C17 C18 C19").split()}
LEVEL["C16"] = "fault_enumeration"
NOTE = {
    "C01": "Seeded histories and thread interleavings (line or bytecode granularity) of entering models, adding components, failing and reading acknowledgements, against a ledger of what was built. Sampled, not exhaustive; PyMC itself is real.",
    "C02": "Seeded sequences of component calls over nested and explicit models with a fault at a seeded call the library makes; every model is compared variable by variable before and after, and with a fresh first-time call. Faults are raised at calls out of the package's own frames.",
    "C03": "Seeded interleavings (line or bytecode granularity, PCT-like and random preemption) of threads building and querying; each thread's values are compared with the same workload run alone. The interpreter's C code is atomic in the simulation.",
    "C04": "Deep snapshots of every caller-owned input around successful, failing and interrupted calls, and retries compared with first calls, over seeded call sequences on shared inputs.",
    "C05": "Seeded update/resize/query/fault/crash histories on long-lived orbits, every answer compared with an independent two-body model in NumPy.",
    "C06": "Seeded histories on long-lived light curves, every answer compared with a direct surface integral over an independent orbit; tolerance 1e-8 plus propagated clock rounding.",
    "C07": "Seeded histories on transit timing orbits, compared with an independent model of labelled transits; timestamps at the midpoint between two transits are not judged.",
    "C08": "Seeded histories on simple transit orbits, compared with an independent chord model; contact instants within rounding are not judged.",
    "C09": "Seeded histories on interpolation tables, compared with a direct multilinear interpolation.",
    "C10": "A simulated master, network and workers: seeded partitions, delays, loss, duplication, crashes; the reference is one evaluation of the whole series by the same code (C05-C09 judge that evaluation itself).",
    "C11": "Seeded corruption of stored values with repair, checkpoint and restart; every entry that owns no corrupted value is compared with the clean answer. Values that make the solver of the dependency exoplanet_core hang are excluded.",
    "C12": "Simulated workers run a small seeded Langevin-Metropolis kernel (a documented stand-in for NUTS) on really shipped model bytes, with crashes and resumes; draws, gradients and derived values are compared with the building process, and gradients with finite differences where those resolve.",
    "C13": "Seeded chains with checkpoints and restarts over the priors' own log-probability, compared state by state with the documented density; support checked at every state including extreme proposals.",
    "C14": "As C13 for the eccentricity priors, with bounds, populations, marginalized parameters and observed eccentricities; one listed finding on the full-sample parameters.",
    "C15": "Seeded forward draws repeated after seeded noise (global generators, other models, failures, threads, restarts) and compared bit for bit; support of all draws checked.",
    "C16": "Every dependency import the package performs and every call it makes while loading is failed in turn (plus seeded pairs and backend settings); an import that succeeds must give healthy answers to a fixed set of questions.",
    "C17": "Seeded observation streams, redelivered, duplicated and re-clocked by exactly representable offsets; estimates compared under the transformation and peak summaries with the returned periodogram.",
    "C18": "Seeded histories and thread interleavings of tagging, converting, building, failing and restoring, against a ledger of tags and an independent unit conversion.",
    "C19": "Seeded call sequences with faults and threads; a process-wide state digest is compared around every call.",
}
NA = {
    "C20": "a pure function of its inputs (mathematical gradient over all inputs): there is no schedule, time, I/O or fault for a simulator to control; C12 checks gradients only at states its chains visit",
    "C21": "pure numerical accuracy of a dependency's compiled function over all inputs; no nondeterminism to simulate",
    "C22": "a closed-form pure function and its inverse over all inputs; no nondeterminism to simulate (C06 judges both values at the points its histories visit)",
    "C23": "closed-form transforms and Jacobians over all inputs; no nondeterminism to simulate (C05 judges both values at the points its histories visit)",
    "C24": "a pure function of a window and an ephemeris; no nondeterminism to simulate",
    "C25": "a finite pure check of argument subsets at one call; no nondeterminism to simulate",
    "C26": "statistical accuracy of pure estimators over all data sets; delivery order, duplication and clock shifts, which a simulator does control, are C17",
    "C27": "a convergence statement about a pure (and documented as untested) approximation; its per-timestamp behaviour under batching is part of C10",
}


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "sim", "props", i.lower() + ".py")):
            checks.append(
                dict(
                    property=i,
                    quick_cmd=f"./run.sh check {i}",
                    thorough_cmd=f"./run.sh check {i} --tier thorough",
                    evidence_file=f"evidence/{i}.json",
                    technique=TECH,
                    level=LEVEL[i],
                    level_note=NOTE[i],
                )
            )
        else:
            na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
    out = dict(
        version=1,
        setup_cmd="./run.sh selftest C08 --n 2",
        checks=checks,
        not_applicable=na,
        notes="No hooks in /repo: every seam (module loader, call and line "
        "events, locks, randomness, storage, clock, network) is outside it.",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


main()
