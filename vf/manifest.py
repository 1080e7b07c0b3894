"""Writes /verif/MANIFEST.json from the table below (python3 vf/manifest.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

T = {
    "C01": ("monitored compilation of generated programs, oracle: dimension algebra",
            "Generated programs that mix dimensions and their consistent twins; the observed compiler verdict per function must match dimensional algebra. Sampling over forms x storage x dimensions, all forms each run."),
    "C02": ("type-identity monitor over generated expressions",
            "Type identity of computed quantities against an independent exponent algebra, integer and rational; sampled expressions."),
    "C03": ("differential online monitor against the storage type, bit for bit",
            "Every operator form x storage executed on special and random bit patterns, and on storage types that record or own what is done to them; sampled values and dimensions."),
    "C04": ("differential online monitor against the storage type",
            "Every comparison form and method executed on special and random values; powers within a few ulp (the storage type's own spread)."),
    "C05": ("differential online monitor over unit application forms",
            "Random-factor and SI units, constants and composed units in every form; tolerance 4 ulp (14 for SI chains)."),
    "C06": ("exhaustive enumeration of the catalogue against an independent table",
            "Every name of the si module, every run; trusts the hand-written table."),
    "C07": ("compiled random unit systems probed at run time, oracle: independent evaluator (fractions, 60-digit decimals)",
            "Every name of every generated system, dimension by type identity and factor by value; sampled systems."),
    "C08": ("compiled random unit systems probed for present and absent names and symbols",
            "Prefix, alias and symbol expansions of generated systems, presence, absence and meaning; sampled systems."),
    "C09": ("monitored compilation of invalid unit systems next to valid twins, oracle: the mutation that made them invalid",
            "Every kind of mistake x sampled systems: a diagnostic, no crash, no acceptance; the valid twin must expand."),
    "C10": ("offline reading of logged Debug texts by the unit definitions",
            "si and generated systems, all storages, format specifications; exact arithmetic on the text; sampled dimensions and values."),
    "C11": ("round-trip monitor through YAML and JSON",
            "Serialized and read back, bit for bit, in si and generated systems, integer and rational; sampled dimensions and values."),
    "C12": ("differential fuzzing of deserialization against an offline reader of the text",
            "Generated and mutated texts and scalars; exact oracle for acceptance, dimension and value; sampled."),
    "C13": ("multi-process MPI execution with guarded buffers, oracle: recomputation of the sender's data",
            "1 to 4 processes (8 thorough), every communication form x storage; shared-memory transport of one Open MPI only."),
    "C14": ("HDF5 write/read monitor, including the raw bytes and the stored types",
            "Datasets, attributes, slices, structs x storage; one version of the HDF5 library."),
    "C15": ("online monitor with two copies of a recording generator",
            "Every sampling form against rand on the stored bounds; sampled bounds; ranges for which rand itself does not end are left out."),
    "C16": ("differential online monitor against glam, component by component",
            "Every vector method x storage on special and random values, and histories of setters."),
    "C17": ("run-time factor against the literal in the definition, bit for bit",
            "Random literals over the whole range of f64 in every position, powers and roots against 60-digit decimals; sampled."),
    "C18": ("type-identity monitor over many notations and operation chains, oracle: exact fractions",
            "Generated systems with one exponent written in many ways, chains of roots and powers, printed exponents, and the fraction type itself against 128-bit integers; sampled."),
    "C19": ("AddressSanitizer (with the compiler's precondition checks) and valgrind over the workloads of the other checks, plus a layout monitor",
            "Sizes, bytes, buffers, C calls and structs; planted canaries prove the tools alive; Miri and ThreadSanitizer do not exist for the toolchain."),
    "C20": ("differential log comparison of one program across fixed and randomly drawn feature sets",
            "Bits for arithmetic, conversions and comparisons, a few ulp for powers, roots and transcendental functions; feature sets beyond the fixed ones are sampled."),
    "C21": ("metamorphic monitor: a system and its permuted, renamed, extended, repeated forms",
            "Probes of every name, symbol and text before and after; sampled systems and transformations."),
    "C22": ("the diagnostics of monitored compilations of ill-formed unit systems, oracle: an independent analysis of what is wrong with each",
            "Every kind of mistake alone, repeated and up to six together: errors are true, mark the right tokens, quote the right dimensions; no mistake goes unreported; sampled systems."),
}


def main():
    checks = []
    for pid, (tech, note) in T.items():
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 vf/check.py {pid} quick",
            "thorough_cmd": f"python3 vf/check.py {pid} thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": "runtime monitoring: " + tech,
            "level": "exploration",
            "level_note": note,
        })
    ids = [json.loads(line)["id"] for line in open(os.path.join(ROOT, "properties.jsonl"))]
    na = [{"property": i, "reason": "check under construction"} for i in ids if i not in T]
    m = {
        "version": 1,
        "setup_cmd": "python3 vf/setup.py",
        "hooks": {"guard": "none: the workloads use only diman's public API, so no guarded hook is needed",
                  "enable": "the checks build /repo as it is, through the path dependency of harness/vfdeps", "source_commits": []},
        "checks": checks,
        "not_applicable": na,
        "notes": "All commits in /repo are fix: commits, listed in known-findings.txt. A check exits 2 when it could decide nothing.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
