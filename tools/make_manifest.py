"""Writes /verif/MANIFEST.json: one entry per property, with the oracle which decides it."""
import json
import os

T = {
    "P01": ("exhaustive enumeration + generated alias chains against tables built from the definition of each index scheme", "All 1540 polynomials with all keyword aliases are compared, chains of aliases are sampled."),
    "P02": ("exhaustive round trips + generated conversion chains against enumerated index tables", "All numbers of supported polynomials; other numbers and chains are sampled."),
    "P03": ("exhaustive grids + generated invalid specifications against a validity predicate", "Grids around every limit are complete, the rest is sampled."),
    "P04": ("exhaustive orders x radii grid + generated points against exact integer arithmetic", "Reference values are correctly rounded; the allowed difference follows from the conditioning of the sum of powers. A few orders n >= 53 are too slow to evaluate."),
    "P05": ("exhaustive orders x radii grid + generated points against exact integer arithmetic", "As P04 for derivatives, up to the border value's 1%."),
    "P06": ("generated points against an independent evaluation of norm, radial and angular parts", "All polynomials for norm and angular parts, points are sampled."),
    "P07": ("metamorphic invariant: complete Gram matrix by exact quadrature + generated pairs", "All pairs with n <= 40."),
    "P08": ("differential testing of two calculation paths, all orders + generated containers", "All orders on a grid of radii; other radii are sampled."),
    "P09": ("metamorphic (array equals pointwise) + input snapshots over generated containers", "Shapes, types and memory layouts are sampled."),
    "P10": ("generated inputs with one misplaced coordinate against a domain predicate", "Positions, shapes and values are sampled."),
    "P11": ("stateful: generated sequences of evaluations in fresh processes against exact values", "Every sequence starts with empty caches; orders to 44."),
    "P12": ("generated sums against an independent linear combination, metamorphic linearity", "Sampled."),
    "P13": ("generated vectors against an element-by-element reference surface", "Sampled, also equal lengths."),
    "P14": ("complete families of steps and neighbouring floats against invariants of the coordinates", "Families are complete to 1/400 (thorough 1/4000), other steps are sampled."),
    "P15": ("exhaustive pairs and sets against the order of tables", "All pairs with n <= 15, generated ones above."),
    "P16": ("generated images against a per-pixel reference model", "Sampled."),
    "P17": ("generated random states, image rebuilt by a reference model from the returned amplitudes", "Sampled."),
    "P18": ("round trip (amplitudes recovered) and least-squares reference over generated sets of points", "Nearly dependent systems are discarded."),
    "P19": ("generated images and crop radii against a reference region, metamorphic reflections", "Pixels within the documented tolerance of the border are not decided."),
    "P20": ("round trip: generated polynomials drawn by a reference model are fitted back", "Allowed error is derived from the resolution of pixel coordinates."),
    "P21": ("generated settings against an independent quadrature, the true integral and the Airy pattern", "Even numbers of angular points."),
    "P22": ("differential: accelerated against plain calculation, all orders + generated sets", "All 66 polynomials alone and in pairs; sets and settings are sampled."),
    "P23": ("metamorphic relations (scaling, rotation, permutation, flags) over generated settings", "Sampled."),
    "P24": ("stateful: generated histories against a new object with the settings in force", "Two interleaved objects, 6 to 18 operations (thorough: more cases)."),
    "P25": ("generated values at and around every limit against a validity predicate", "Sampled, limits exactly included."),
    "P26": ("generated kernels against a reference cropping and its invariants", "Sampled."),
    "P27": ("generated images and kernels against a direct-sum convolution", "One unit of difference for integer images."),
    "P28": ("round trip over generated objects, stateful chains of save and read", "Sampled."),
    "P29": ("stateful: generated file histories against a model of the folder", "Files in scratch folders only."),
    "P30": ("generated schedules (delays of single calls), worker numbers and histories against sequential results", "Delays stand for schedules; every case has a time limit."),
    "P31": ("stateful differential: parallel against sequential kernels over generated histories", "Up to 4 workers."),
    "P32": ("generated plots, data behind the figure against a reference surface", "Non-interactive backend."),
    "P33": ("stateful: generated plots, data behind the figures against the kernel and invariants of the disk", "Non-interactive backend."),
    "P34": ("exhaustive orders + generated request histories in fresh processes against exact integers", "All orders n <= 60; histories are sampled."),
    "P35": ("stateful: generated histories with precompilations against new objects and a quadrature", "Sampled."),
    "P36": ("generated inputs and histories of evaluations against predicates of the conditions of warnings", "Kernels to 15x15; sampled."),
    "P37": ("generated sets of concurrent jobs under a tiny thread switch interval against their results alone", "Schedules are those the interpreter produces, not enumerated."),
    "P39": ("differential and metamorphic testing: calls with generated subsets of arguments left out or given by position against calls with all of them by name", "Documented functions; required arguments are generated."),
    "P40": ("property-based testing of printed reports against the calculated results, the clock and a counter of finished jobs read at the moment of each line", "Texts are judged by their words and numbers."),
    "P41": ("property-based testing: arguments and process settings compared before and after generated calls of all documented functions, read-only against writable arguments, fresh processes for the import", "The interactive mode of matplotlib may be switched on by plots of kernels."),
    "P42": ("stateful property-based testing: histories on objects and their copies against new objects with the same operations; objects sent to fresh processes", "Objects with initialized workers aren't copied; shallow copies are compared only."),
    "P43": ("property-based testing of repeated cycles: traced memory, objects, files, threads and processes between periods; growth in each of ten periods is a violation", "Growth below about 48 bytes per cycle isn't seen; plots and names of files, kept by matplotlib and Python, are allowed more."),
    "P38": ("differential testing of all implementations, exhaustive orders x radii + generated points and settings", "Orders within the reach of each implementation."),
}

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = [json.loads(line)["id"] for line in open(os.path.join(here, "properties.jsonl"), encoding="utf-8")]
    checks = []
    for i in ids:
        technique, note = T[i]; assert technique, i
        checks.append({"property": i, "quick_cmd": f"python3 pbt/run.py {i} --tier quick", "thorough_cmd": f"python3 pbt/run.py {i} --tier thorough", "evidence_file": f"evidence/{i}.json",
                       "technique": "property-based testing: " + technique, "level": "exploration",
                       "level_note": note + " Search over generated inputs: no violation among the cases counted in the evidence file, no proof for the others. Trusted: numpy, scipy, Hypothesis, the oracle in pbt/oracles.py."})
    m = {"version": 1, "setup_cmd": "python3 pbt/run.py --self-test", "checks": checks, "not_applicable": [],
         "notes": "No hooks in /repo: every check uses the package as it is. VERIF_SEED selects the generated cases. 'python3 pbt/run.py PXX --replay FILE' repeats a reported case."}
    with open(os.path.join(here, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, indent=1); f.write("\n")
    print(len(checks))
