#!/usr/bin/env python3
"""Writes MANIFEST.json from the lists below (run after changing them)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
BASE = ("Seeded search, not proof: a clean batch is evidence. Runs the unmodified library between "
        "simulated sources and sinks in one process; trusts the simulator, its reference models "
        "and the Rust toolchain. Every run is a function of its seed. ")
NOTES = {
    "C01": "Differential between delivery schedules and between kinds of reader; positions compared exactly between byte deliveries, and as places in the text between kinds.",
    "C02": "Fault-free run of the same program as oracle; the injected error must be carried by the one-call entry points.",
    "C03": "Independent reference parser as oracle for completeness.",
    "C04": "Independent reference parser as oracle for well-formedness and content; nesting to 100000 on a 192 KB stack. Exponents beyond 32 bits and unpaired surrogate escapes may be rejected.",
    "C05": "Reference parser plus an executable model of the session; the object wrappers are driven as well as the raw operations. Iteration is expected in document order.",
    "C06": "Values of a family of derived types, rendered by an independent renderer.",
    "C07": "Upper bound of consumption per operation from the reference parse, with a source that stalls beyond it.",
    "C08": "In-memory text of the same operations as oracle, after every operation.",
    "C09": "Fault-free text as oracle; exact prefix, error identity, silence after the report.",
    "C10": "Equality of the value received with the value sent; sender, link and receiver are all simulated in one run.",
    "C11": "Independent parser and layout checker over the text written.",
    "C12": "Generated wrapper programs with one misuse at a drawn point.",
    "C13": "Positions from the reference parse; error kinds from the model.",
    "C14": "Set membership as oracle, for lookups interleaved under a seeded scheduler.",
    "C18": "The format is the simulated party: it records and judges each call, and fails at a drawn one. Independent description of each value as oracle.",
    "C19": "A counting allocator around every call into the library; what is held is compared with what was delivered, with what was held earlier in the same session, and with a second run of the same choices. The digits of one number may be gathered.",
    "C20": "Which calls fit is told by the model of the session; a panic is the demanded outcome, with nothing taken from the source. Peeking and the error constructors are not judged.",
    "C15": "Solo run of each session as oracle; sessions interleaved by a seeded scheduler, with real threads under a baton and re-entrant I/O.",
}
CLAIMED = os.environ.get("CLAIMED", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C18 C19 C20").split()
NA = {
    "C16": "Number conversion is a pure function of the token: no schedule, clock, I/O, fault or second party changes its result, so simulation with fault injection has nothing to decide beyond feeding inputs, which would be plain input fuzzing. (That delivery and holding back do not change a number is decided under C01 and C05.)",
    "C17": "This is a property of the compiler's run on a type definition: nothing executes at run time, so there is no schedule or fault to simulate.",
}
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": [],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks were needed in /repo: sources, sinks and character readers are already behind traits. Known and fixed findings: KNOWN_FINDINGS.txt.",
}
for k in NOTES:
    if k in CLAIMED:
        m["checks"].append({
            "property": k,
            "quick_cmd": f"./check.sh {k} quick",
            "thorough_cmd": f"./check.sh {k} thorough",
            "evidence_file": f"evidence/{k}.json",
            "technique": "deterministic simulation with fault injection (seeded search)",
            "level": "exploration",
            "level_note": BASE + NOTES[k],
        })
    else:
        m["not_applicable"].append({"property": k, "reason": "check under construction"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
