"""Writes the evidence file of a check run; every count is taken from this run."""
import json

ASSUME = [
    "The specification (spec/*.tla) states the intended behaviour; it was written from the RISC-V manuals and the repository's documentation, not derived from the checked run.",
    "TLC and the JSON module of the TLA+ community modules evaluate the specification correctly.",
    "Checked on x86-64 Linux with the assembly engine enabled; the aarch64 assembly is not executed here.",
]


def write(r, a, wall, path):
    c = r.cov
    d = {
        "property": a.prop, "tier": a.tier, "seed": r.seed, "level": "model_checking",
        "coverage": {
            "states": c["states"], "transitions": c["generated"],
            "traces_validated_against_impl": c["traces"],
            "samples": c["samples"],
            "cases": c["cases"], "script_operations": c["ops"],
            "instructions_replayed": c["insts"], "single_instructions": c["steps"],
            "run_outcomes": c["outcomes"], "stages": c["stages"],
            "known_findings_met": sum(r.known_hit.values()),
            "deviations_of_other_properties": r.others,
        },
        "assumptions": ASSUME, "wall_s": round(wall, 1), "violations": len(r.viol),
    }
    d["coverage"].update(getattr(r, "extra", {}))
    with open(path, "w") as f:
        json.dump(d, f, indent=1)
