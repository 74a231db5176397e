"""Writes MANIFEST.json from the list below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {  # property: (technique, level_note)
 "C01": ("property-based testing against a long-double reference of the difference equation", "Random sections, structures, inputs and resets; per-sample error bounded by a running a-priori rounding bound. Trusts the 30-line reference recursion."),
 "C02": ("property-based testing: response query against the DTFT of the produced impulse response", "Random designs; the impulse response is continued exactly in long double from the observed coefficients where it decays slowly. Tolerance from a rounding model."),
 "C03": ("property-based testing against the closed-form Butterworth response", "Complex response at random frequencies against an independent long-double closed form; tolerance from the condition of the coefficients."),
 "C04": ("property-based testing against the closed-form Chebyshev I response", "As C03, plus ripple and edge predicates."),
 "C05": ("property-based testing against the closed-form Chebyshev II response", "As C03, plus rejection and edge predicates."),
 "C06": ("property-based testing against closed-form shelf responses", "As C03, for the shelves of three families; two documented deviations are known findings and excluded from the domain."),
 "C07": ("property-based testing against the Audio-EQ-Cookbook formulas", "Independent long-double cookbook formulas; response, landmarks and the defaults."),
 "C08": ("property-based testing: pole radius, boundedness and decay of accepted designs", "Poles recomputed from the coefficients; decay envelope from the slowest pole; resonance and overflow excluded by stated margins."),
 "C09": ("stateful property-based testing against a validity predicate of all arguments", "Accept/reject compared with an independent predicate over every overload, after random histories; values within rounding of a bound are not judged."),
 "C10": ("stateful property-based testing: rejected calls against a twin that never made them", "Bit-for-bit comparison of coefficients, output and response with a twin object."),
 "C11": ("stateful property-based testing: reused object against a fresh one", "Bit-for-bit comparison after random histories."),
 "C12": ("stateful property-based testing: pools of copies against replayed histories", "Every live object is compared with a never-copied object replaying its history; freed originals are poisoned."),
 "C13": ("property-based testing: metamorphic relation between overloads", "Bit-for-bit or rounding-bounded comparison of two ways of asking for the same filter."),
 "C14": ("stateful property-based testing with an allocator monitor", "malloc family and operator new/delete counted while library calls run."),
 "C15": ("property-based testing: mixed sample types against a double-precision twin", "Exact comparison with the converted output of a twin filter fed with doubles."),
 "C16": ("property-based testing: reported poles/zeros against response and coefficients", "Round trip and response reconstruction in long double with rounding-model tolerance."),
 "C17": ("property-based testing: metamorphic relations (superposition, delay, causality, scaling)", "Exact for delay, causality, determinism and powers of two; rounding bound for superposition."),
 "C18": ("stateful fuzzing of call histories under AddressSanitizer/UBSan (memcheck in the thorough tier)", "Any sanitizer report, foreign exception, signal or leftover guard pattern is a violation."),
 "C19": ("differential property-based testing of the builds with and without exceptions", "Same random calls in both builds; rejected calls run in a forked child that must end in abort()."),
 "C20": ("random sampling of build and installation configurations, differential against the plainest", "Generated compiler/flag/layout configurations, each running 150 random calls; differences above rounding fail."),
 "C21": ("stateful property-based testing of interleavings and threads, with ThreadSanitizer", "Interleaved and threaded histories against each object alone, bit for bit; thread schedules are sampled by the OS and TSan's happens-before analysis, not enumerated."),
 "C22": ("stateful property-based testing: re-tuned filter against a reference keeping the delay lines", "Reference delay lines in long double driven with the coefficients in force."),
 "C23": ("property-based testing: imported sections against reference transfer functions", "Exact coefficients where arithmetic is exact, rounding bound elsewhere."),
 "C24": ("stateful property-based testing with system-call trapping; metamorphic runs in changed surroundings", "Process-wide state compared and system calls trapped around every generated call; the same history re-run in nine kinds of changed surroundings, bit for bit."),
 "C25": ("property-based testing of concurrent readers against a single-threaded twin, with ThreadSanitizer", "Random read mixtures on one shared object; schedules are sampled by the OS and TSan's happens-before analysis, not enumerated."),
 "C26": ("stateful property-based testing across static initialisation, main() and process exit", "Random histories cut at random points and run in a restarted process, bit for bit against the same history in main()."),
 "C27": ("stateful property-based testing with counted basic blocks", "Every generated call is counted with compiler coverage instrumentation; bounds are linear in the number of sections with a margin of 3-7 over the present code."),
 "C28": ("program fuzzing: generated user programs, differential against their plainest form", "Grammar-based generation of snippets, both compilers, C++11 to C++23; failing snippets are isolated and shrunk choice by choice."),
 "C30": ("stateful property-based testing with injected allocation failures", "Allocations of generated calls fail at random points; a twin with memory gives the expected state, bit for bit; blocks kept by any call are counted."),
 "C29": ("property-based testing: generated analogue prototypes in a program's own filter families against their closed form", "Complex response against the prototype at the warped frequency in long double; tolerance from the conditioning of the roots. The harness derives from PoleFilterBase and PoleFilter as the library's families do."),
}
m = {"version": 1, "setup_cmd": "mkdir -p build evidence replays && g++ --version && clang++ --version && cmake --version && valgrind --version",
     "checks": [{"property": p, "quick_cmd": "python3 tools/check.py %s quick" % p, "thorough_cmd": "python3 tools/check.py %s thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "exploration", "level_note": n} for p, (t, n) in sorted(T.items())],
     "not_applicable": [],
     "notes": "No hooks: the checks use the public API of the working tree only. See DESIGN.md and known_findings.txt."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
