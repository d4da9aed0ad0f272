"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NOTE = {
    "session": "Seeded search, not proof: the real rdtools source runs under a controlled caller "
               "(threads, faults at source lines, clock, random streams); trusted: the simulator, "
               "pandas/numpy and the comparison digest. Holds for the sessions explored.",
    "model": "Seeded search over simulated plants and telemetry faults; every run compares the "
             "real code with a small independent reference model; trusted: that model and the "
             "stated tolerance. Holds for the histories explored.",
}
KIND = {"C01": "session", "C02": "session", "C04": "session", "C05": "session",
        "C06": "session", "C07": "session", "C08": "session", "C09": "session", "C22": "session"}
TECH = "deterministic simulation with fault injection: "
WHAT = {
    "C01": "seeded call sessions with line-level faults and thread interleavings, input snapshots",
    "C02": "seeded histories, clocks, processes and hash seeds; bitwise replay comparison",
    "C03": "controlled random streams, refinement against an independent resampling model",
    "C04": "seeded object sessions against a freshly built reference object",
    "C05": "crash at any source line of an analysis, atomicity and rerun checks",
    "C06": "I/O faults, truncation, interrupts and concurrent first use on the data files",
    "C07": "seeded thread interleavings at source lines against solo runs",
    "C08": "line-level faults with process-state snapshots",
    "C09": "checkpoint, crash, restore in another process, continuation comparison",
    "C10": "simulated telemetry with link, logger and clock faults, reference integral",
    "C11": "simulated telemetry with link, logger and clock faults, reference interpolation",
    "C12": "simulated plant with outages and partitions, ground-truth refinement",
    "C13": "simulated inverters with trips and partitions, ground-truth refinement",
    "C14": "simulated record loss over years, exact pair reference model",
    "C15": "simulated soiling site with outages and cleanings, reference segmentation",
    "C16": "simulated plant and telemetry, end-to-end refinement against composed steps",
    "C17": "simulated telemetry with faults and clipping, refinement against reference rules",
    "C19": "simulated logger clocks and losses over a synthetic table, reference in absolute time",
    "C20": "injected failures of fits in both bootstrap stages, refinement against a reference "
           "combination; real decompositions of simulated plants",
    "C21": "simulated meter and weather station with faulty links, reference integrals",
    "C22": "seeded sessions of analyses, faults and figures; every figure read back and compared "
           "with the published results",
    "C18": "simulated record loss, refinement against closed-form regression and trend test",
}


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "dsim", "props", i.lower() + ".py")):
            checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick",
                           "thorough_cmd": f"bash check.sh {i} thorough",
                           "evidence_file": f"evidence/{i}.json",
                           "technique": TECH + WHAT[i], "level": "exploration",
                           "level_note": NOTE[KIND.get(i, "model")]})
        else:
            na.append({"property": i, "reason": "check still being built"})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the seams are sys.monitoring LINE events on rdtools' code "
                  "objects, numpy's global generator, and the pandas/xgboost/h5py entry points. "
                  "The fix: commits in /repo are listed in known_findings.txt."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks", len(na), "not claimed")


if __name__ == "__main__":
    main()
