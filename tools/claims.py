"""Which properties have a registered check, by which method, at which strength."""
A = "symbolic execution of the compiled IR over Taylor models with rounding-error symbols; per-path error obligation decided by z3 (QF_NRA)"
B = "bit-precise symbolic execution of the compiled IR; z3 / cvc5 verdict over all bit patterns (QF_BVFP)"
NOTE_A = ("bounded verification over every float/double/long double in the stated boxes, for the real IR of both language modes: an unsat verdict bounds |code - true value| for all values of the box. "
          "Trusted: clang -O0 IR, the engine's interval bounds on polynomial coefficients, z3. Obligations that the solver cannot decide in time are listed as undischarged in the evidence and raise no alarm; a sat verdict is replayed on the compiled code against a 220-bit reference before it is reported")
NOTE_B = ("the encoding is regenerated from the current headers (clang -O0 IR after mem2reg) and validated against the compiled code on edge values; unsat means no bit pattern violates the obligation. Sat models are replayed on the compiled code. Trusted: clang, z3/cvc5 float theory, x86-64 float formats")
CLAIMED = {"C01": (B, NOTE_B), "C02": (B, NOTE_B)}
CLAIMED.update({"C%d" % k: (A, NOTE_A) for k in range(13, 30)})
NOTE_I = NOTE_B + ". 'All values' obligations abstract the machine divisions/products as uninterpreted functions (sound for unsat), backed by bit-precise obligations on the small magnitudes"
BI = "bit-precise symbolic execution of the compiled IR with bounded unwinding of recursion and loops; z3 / cvc5 verdict over all integer values (QF_BV, QF_UFBV)"
CLAIMED.update({"C03": (BI, NOTE_I), "C04": (BI, NOTE_I), "C05": (BI + "; floating bases by " + A, NOTE_I)})
BG = "bit-precise symbolic execution of the compiled IR (recursive callees as uninterpreted functions, expanded on demand; infeasible branches pruned by the solver); z3 / cvc5 verdict over all bit patterns (QF_UFBVFP)"
NOTE_G = NOTE_B + ". Calls of recursive functions and, first, float arithmetic are uninterpreted functions: sound for unsat; a model that the compiled code does not confirm only moves the obligation to the next, more precise encoding"
CLAIMED.update({k: (BG, NOTE_G) for k in ("C07", "C08", "C09", "C11")})
CLAIMED["C06"] = (BG + "; remainders of windows between multiples by " + A, NOTE_G)
CLAIMED["C12"] = ("equality of the two modes' functions by induction over the call graph (bodies executed symbolically, equal callees uninterpreted; z3 verdict); functions with different operations: " + A + " on the difference of both", NOTE_G)
CLAIMED["C10"] = ("contracts of every function decided bottom-up over the call graph: bit-precise symbolic execution of each body with its undefined operations as an obligation, callees replaced by their contracts, recursion by induction; z3 / cvc5 verdict (QF_UFBVFP); nesting: " + A + " on the number of nested calls of every path",
    NOTE_G + ". A function without a provable contract is executed inside its callers. Models are replayed under UndefinedBehaviorSanitizer, nesting violations by compiling the call as a constant expression with g++ and clang++ at their default limits")
NA = {}
