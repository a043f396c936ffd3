"""technique and assurance note per property (used by mkmanifest.py)"""
C = " Search over generated inputs: no proof beyond the cases run; trusts the oracle in props/, the compiler and the C runtime."
NOTES = {
"P01": ("random problems of every kind, certificate oracle in extended precision", "Every optimal exit on generated problems (well-posed, unsolvable, wild, points placed at chosen multiples of the tolerances, option changes between calls) is re-verified in long double with a rigorous rounding allowance." + C),
"P02": ("planted-optimum generator with duality-gap oracle", "Problems are built around a known primal-dual optimum, so the expected answer is independent of any solver; failures are confirmed on perturbed siblings because the factorisation does not pivot." + C),
"P03": ("generator of certified-unsolvable problems", "Each generated problem carries a Farkas-type certificate or non-finite data, so that optimal is provably wrong." + C),
"P04": ("stateful call sequences, split-run differential and independent stop-test oracle", "Random sequences of solve calls with changing limits and tolerances compared with one-iteration stepping and with a model of the iteration count and exit code." + C),
"P05": ("three-way differential of the entry points, held-data oracle", "The data held by instances set up three ways are compared entry for entry with the generated dense data, and the solutions with each other." + C),
"P06": ("random permutations and injected allocation failures, planted-optimum oracle", "Random admissible orderings and every failing allocation of the ordering routine; all results go through the optimality oracle." + C),
"P07": ("random life cycles under sanitizers with a tracking allocator and guarded caller arrays", "AddressSanitizer and UBSan plus an allocation table and byte comparison of the caller's arrays on generated histories." + C),
"P08": ("model-based interleavings, poisoned fresh memory, threads under ThreadSanitizer", "Bitwise comparison of runs in isolation against interleaved, threaded and poisoned-memory runs." + C),
"P09": ("random histories, extended-precision re-evaluation of the reported figures", "Reported figures against long double evaluation with a rigorous rounding bound." + C),
"P10": ("captured output parsed and compared with one-iteration stepping of a silent twin", "Every printed number is compared with the state of a silent twin instance." + C),
"P11": ("model clock driving generated clock readings", "clock_gettime is replaced by a generated clock; times are compared with the model's." + C),
"P12": ("metamorphic transformations of planted problems", "Compositions of equivalence transformations with exactly transformed optimum." + C),
"P13": ("one-step differential against an extended-precision reference of the method", "Every visited point is advanced one step by an independent dense long double implementation of the documented predictor-corrector iteration and compared with what the solver visits next; comparisons are limited to well-conditioned steps, where the allowance stays far below any algorithmic change." + C),
"P14": ("random sparse matrices and vectors against dense extended-precision algebra", "Fourteen kernels on generated patterns (empty, unsorted, repeated entries) under AddressSanitizer, compared entry for entry with dense algebra with rigorous rounding bounds." + C),
"P15": ("random quasi-definite systems, product and boolean-elimination oracles", "L, D and the symbolic counts are compared with the permuted matrix and with elimination on booleans; rigorous componentwise bounds." + C),
"P16": ("random patterns, control settings, invalid variants and failing allocations against set-based statistics", "Result, status and statistics recomputed from the pattern with sets; runs repeated under different memory contents; AddressSanitizer and an allocation table for leaks." + C),
"P17": ("structured and random graphs against exact minimum degree and known good orderings", "Factor sizes counted by an independent symbolic elimination; single patterns compared loosely, totals over batches tightly with an exact minimum degree reference, also for the factor an instance holds after set-up." + C),
"P18": ("mutated permutations and patterns against the definition, exact-size arrays", "Verdicts compared with the definition on vectors and patterns a few mutations away from valid; AddressSanitizer guards every array end." + C),
"P19": ("random calls in every array layout and option set, differential against the C library", "The dictionary of every generated call is compared bit for bit with the same library driven directly from C on plain copies of the data; arguments are compared before and after." + C),
"P20": ("random malformed and boundary calls, model of the argument contract, also with the interpreter under AddressSanitizer", "A model of the documented argument rules predicts the exception type or success for every generated call; crashes and bad reads are caught by AddressSanitizer." + C),
"P21": ("repeated random calls with reference, heap and object accounting; concurrent callers compared with the C library", "Reference counts, heap bytes and object counts over repeated identical calls; results of threads compared with the library's." + C),
"P22": ("random valid and malformed calls over a stand-in MATLAB API, differential against the C library", "The gateway source is compiled against a stand-in for mex.h and driven with generated argument lists; valid calls are compared bit for bit with the library driven directly under the same synthetic clock, calls with a generated mistake must end in an error." + C),
"P23": ("random step sequences over a stand-in SimStruct, differential against the C library", "Both S-functions are compiled against a stand-in for simstruc.h, initialised, connected and stepped with generated problems; outputs compared bit for bit with the library driven directly." + C),
"P24": ("random problems stepped one iteration at a time, invariants over the history", "Positivity, the 1 percent rule and step sizes are checked exactly (to 1e-9) after every iteration of generated well-posed, unsolvable and arbitrary problems; contraction of the residual vectors in long double on well-posed ones." + C),
"P25": ("random control and statistics arrays, printed text parsed back and compared", "The text handed to the print function is parsed and compared with the arrays, for statistics of real ordering runs and made-up ones, with and without a print function." + C),
}
