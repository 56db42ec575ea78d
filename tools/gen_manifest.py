#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
T = {
 "C01": ("runtime monitoring: votes of every call against a tuple-multiset model, ASan+UBSan builds and Python module", "random histories; the mapping is observed through json()"),
 "C02": ("runtime monitoring: mapping rules checked on every constructed model and after every operation", "random configurations; randomness of the shuffle itself is not judged"),
 "C03": ("runtime monitoring: predictions against an executable bleaching rule on designed vote matrices", "vote matrices are loaded or trained; thresholds up to 2^31"),
 "C04": ("runtime monitoring: every returned entry recomputed from the decoded state; stdout captured", "floating point values within 1e-5"),
 "C05": ("runtime monitoring: mental images against the example log", "random histories incl. wide addresses"),
 "C06": ("runtime monitoring: all observables against a model that never learned the unlearned examples", "random interleavings"),
 "C07": ("runtime monitoring: twins with permuted/batched/re-represented training compared with each other and the model", "virtual clock and C RNG are workload choices"),
 "C08": ("runtime monitoring: reload generations run in lockstep with the original and a model", "random continuations after each reload"),
 "C09": ("runtime monitoring: file hashes and reloads over a virtual clock, fixed RNG states, several processes", "scratch directories; the clock is interposed"),
 "C10": ("runtime monitoring: jsonConfig fields against the options given; untrained twins in lockstep", "random option combinations"),
 "C11": ("runtime monitoring: decoded clusters after every call against an executable growth rule", "cases within rounding of a limit are left"),
 "C12": ("runtime monitoring: decoded clusters after semi-supervised calls against an executable model", "cases within rounding of a limit are left"),
 "C13": ("runtime monitoring: predictions against the bleaching rule over decoded discriminators", "label texts incl. ::, unicode, empty"),
 "C14": ("runtime monitoring: reload generations of ClusWisard in lockstep with the original", "random continuations after each reload"),
 "C15": ("runtime monitoring: bit-list model in lockstep, ASan+UBSan build", "sizes 0..~5000 bits"),
 "C16": ("runtime monitoring: list model in lockstep, independent parser of the saved file", "scratch directories"),
 "C17": ("runtime monitoring: dictionary model in lockstep, independent codec", "64-bit addresses, 32-bit values"),
 "C18": ("runtime monitoring: codec against an independent RFC 4648 implementation", "lengths 0..~100000, all byte pairs"),
 "C19": ("runtime monitoring: nearest-kernel oracle on observed kernels plus metamorphic relations", "kernels within 1e-7 of the limit are not decided"),
 "C20": ("runtime monitoring: support rules on every sample and a frequency monitor with a bound of 1e-12 false alarm probability", "statistical for frequencies"),
 "C21": ("runtime monitoring: ASan+UBSan+libstdc++ assertions, sanitized Python module and valgrind memcheck over whole-API random programs", "executed paths only"),
 "C22": ("runtime monitoring: injected invalid calls; exception required and state compared with a model of the accepted prefix", "values judged at positions the mapping reads"),
 "C23": ("runtime monitoring: mutated saves loaded and used under ASan+UBSan+assertions, watchdog re-run", "mutation-based, executed paths only"),
 "C24": ("runtime monitoring: ThreadSanitizer over concurrent readers/writers and before/after state comparison over read interleavings", "schedules are those of the scheduler with barriers and repetitions"),
 "C25": ("runtime monitoring: diverging copies against models, heap conservation over cycles, LeakSanitizer-style accounting", "growth is judged over repeated cycles"),
 "C26": ("runtime monitoring with injected I/O faults (missing directory, file size limit, full device, no descriptors, cut files)", "fault points: sampled and swept limits"),
 "C27": ("runtime monitoring: differential execution of header builds and the Python module on the same programs", "random programs"),
 "C28": ("runtime monitoring: frequency monitors over the mappings and kernels of thousands of models", "statistical: a count more than 8 standard deviations off"),
 "C29": ("runtime monitoring: getsizeof against the number of stored addresses after every operation", "the fixed amounts are observed, not assumed"),
 "C30": ("runtime monitoring: arguments compared after every call; the same program with and without spoiled arguments and results, in lockstep", "random programs"),
}
TH = {}
checks = []
for p in sorted(T):
    checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": T[p][0], "level": "exploration",
                   "level_note": "Held on the executions produced (counts in the evidence file), not a proof. " + T[p][1][0].upper() + T[p][1][1:] + ". Trusts clang/gcc sanitizers, Python and the reference models in wv/."})
m = {"version": 1, "setup_cmd": "python3 -m wv.build gen py vtime genmem tsan plain pyasan", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo are needed: everything is observed at the public API (C++ executor, Python module, files, stdout, heap, process status). Repairs of genuine defects are listed in known_findings.txt."}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
