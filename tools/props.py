#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/gcem_incl/"
P = []

def prop(id, title, statement, qtext, why, files, mech, over=("inputs",)):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=[I + f for f in files],
                               mechanism=[dict(name=n, where=I + w) for n, w in mech])))

FT = "float, double and long double, language modes C++11 and C++17"

prop("C01", "Rounding functions return the exact integer for every floating-point input",
 "For every finite float, double and long double x, floor, ceil, trunc and round return exactly the value the C standard library gives (largest integer not above, smallest not below, towards zero, nearest with halves away from zero). Infinities and signed zeros come back unchanged and NaN comes back as NaN.",
 "all bit patterns of float, double, x87 long double; both language modes",
 "2^32..2^80 bit patterns; the mistakes live at halfway cases, just below an integer, at the integer-range cutoffs and in the subnormals, none of which the sampled test points hit",
 ["floor.hpp", "ceil.hpp", "trunc.hpp", "round.hpp", "abs.hpp", "sgn.hpp"],
 [("floor of a finite value", "floor.hpp"), ("ceil of a finite value", "ceil.hpp"), ("truncation", "trunc.hpp"), ("round half away from zero", "round.hpp")])

prop("C02", "Sign, magnitude and ordering primitives are exact",
 "For every input, abs clears the sign, signbit reports the sign bit (also of zeros), copysign returns the first argument's magnitude with the second's sign, sgn is -1, 0 or 1 by the value's sign, and max/min return the larger/smaller of two numbers in their common type.",
 "all bit patterns of float, double, long double; all int and long long values (most negative excluded for abs)",
 "exact for every bit pattern, including signed zeros, subnormals, extreme values and mixed argument types, not for the few samples",
 ["abs.hpp", "sgn.hpp", "signbit.hpp", "copysign.hpp", "max.hpp", "min.hpp", "neg_zero.hpp"],
 [("absolute value", "abs.hpp"), ("sign", "sgn.hpp"), ("sign bit", "signbit.hpp"), ("copy sign", "copysign.hpp"), ("maximum", "max.hpp"), ("minimum", "min.hpp")])

prop("C03", "gcd and lcm are the true greatest common divisor and least common multiple",
 "For every pair of integers in range, gcd is a non-negative common divisor divisible by every other common divisor, gcd(a,0)=|a|, and the signs and order of the arguments do not matter. lcm is the non-negative least common multiple (0 when either argument is 0, including both).",
 "integer pairs of the supported widths and signedness, within the stated unrolling bounds",
 "a quadratic number of argument pairs with data-dependent recursion; sign combinations, zeros and mixed types are corner cases tests sample once or not at all",
 ["gcd.hpp", "lcm.hpp", "abs.hpp"], [("Euclid recursion", "gcd.hpp"), ("least common multiple", "lcm.hpp")])

prop("C04", "factorial and binomial_coef of integers are exact whenever representable",
 "For every non-negative integer n whose factorial fits the argument type, factorial(n) is exactly n!. For every 0 <= k <= n whose binomial coefficient is representable, binomial_coef(n,k) is exactly n choose k, and it is 0 for k > n.",
 "all n with n! representable in int, long long, unsigned long long; all 0<=k<=n up to the stated bound, integer and floating argument types",
 "each table row or recursion step is a separate literal or branch; tests touch only a few",
 ["factorial.hpp", "binomial_coef.hpp"], [("factorial table and recursion", "factorial.hpp"), ("Pascal recursion", "binomial_coef.hpp")])

prop("C05", "Raising to an integral power equals repeated multiplication",
 "For every base and every integral exponent n, pow(x,n) is the n-fold product (1 for n=0, the reciprocal of the positive power for negative n): exact for integer bases when representable, and within relative 1e-13 (double), 1e-5 (float) or 1e-16 (long double) of the true power for floating bases up to the stated exponent bound. The sign is positive for even n and the base's own for odd n.",
 "all bases of the type, all exponents within the bound (both signs, signed and unsigned exponent types)",
 "every exponent takes a different recursion path; wrong parity or a wrong special case shows only for particular exponents",
 ["pow.hpp", "pow_integral.hpp", "is_odd.hpp"], [("exponentiation by squaring", "pow_integral.hpp"), ("integral exponent dispatch", "pow.hpp")])

prop("C06", "fmod is the remainder of truncated division",
 "For finite x and finite non-zero y whose quotient is within the stated bound, fmod(x,y) differs from x - trunc(x/y)*y only by rounding, has magnitude at most |y| and never the opposite sign of x beyond rounding, and equals x exactly when |x| < |y|, also for infinite y. Infinite x or zero y gives NaN.",
 "all pairs of float/double/long double values with the stated quotient bound; integer arguments",
 "the quotient and its truncation vary over a two-dimensional space; tests sample a few points",
 ["fmod.hpp", "trunc.hpp"], [("remainder", "fmod.hpp")])

prop("C07", "NaN in gives NaN out, everywhere",
 "For every public floating-point function and every floating argument position, if that argument is NaN the result is NaN, whatever the other arguments are. Not included, by their definition: sgn, signbit, max, min, copysign's second argument, gcd, lcm, binomial_coef, and pow with an exponent of integral type equal to zero.",
 "every function, type, argument position and every value of the remaining arguments",
 "for multi-argument functions the other arguments range over everything, including infinities and zeros that divert control before the NaN test",
 ["is_nan.hpp", "exp.hpp", "log.hpp", "pow.hpp", "erf.hpp", "incomplete_beta.hpp", "incomplete_gamma.hpp", "atan2.hpp", "hypot.hpp", "fmod.hpp"],
 [("NaN tests", "is_nan.hpp")])

prop("C08", "Poles, limits and out-of-domain arguments give the documented special values",
 "Out-of-domain arguments give NaN for every value outside the domain: log, log2, log10, sqrt, inv_sqrt of negatives, log1p below -1, asin/acos/atanh/erf_inv beyond 1, acosh below 1, sin/cos/tan of infinities, tgamma of negative integers, pow of a negative base to a floating power, fmod of an infinite x or by zero, incomplete_gamma of a negative shape, incomplete_gamma_inv of p above 1, lmgamma of order below 1. Poles give the signed infinity (logarithms of zero, inv_sqrt(0), atanh(+-1), erf_inv(+-1), tgamma(0), lgamma of zero or less, incomplete_gamma_inv(a,1), negative powers of zero) and infinite arguments give the mathematical limit (exp, expm1, logs, sqrt, atan, atan2, the hyperbolic functions and their inverses, erf, lgamma, tgamma, pow, hypot, incomplete_gamma). Exact fixed points hold exactly (exp(0)=1, log(1)=0, sin(0)=0, acos(1)=0 and so on) and exp/expm1 far beyond the representable range give infinity, 0 and -1.",
 "every value outside each function's domain, every infinity and pole, every type",
 "whole half-lines of inputs must be rejected and the neighbouring boundary values must not be; tests pick one value on each side",
 ["log.hpp", "sqrt.hpp", "inv_sqrt.hpp", "asin.hpp", "acos.hpp", "acosh.hpp", "atanh.hpp", "erf.hpp", "erf_inv.hpp", "exp.hpp", "lgamma.hpp", "tgamma.hpp", "incomplete_gamma.hpp", "incomplete_gamma_inv.hpp", "incomplete_beta_inv.hpp", "pow.hpp", "tanh.hpp", "hypot.hpp"],
 [("infinity tests", "is_inf.hpp"), ("finite tests", "is_finite.hpp")])

prop("C09", "Odd functions are odd and even functions are even, exactly",
 "For every x, sin, tan, asin, atan, sinh, tanh, erf, round and trunc satisfy f(-x) = -f(x) and abs, cos and cosh satisfy f(-x) = f(x) exactly (as numbers: the sign of a zero result is not included). For x > 0, acos(-x) equals pi - acos(x) in the argument's type, and hypot ignores the signs of both arguments.",
 "all inputs of float, double, long double",
 "relates two runs over the whole input space; tests check isolated values of one sign",
 ["sin.hpp", "cos.hpp", "tan.hpp", "asin.hpp", "acos.hpp", "atan.hpp", "sinh.hpp", "cosh.hpp", "tanh.hpp", "asinh.hpp", "atanh.hpp", "erf.hpp", "erf_inv.hpp", "round.hpp", "trunc.hpp", "hypot.hpp"],
 [("negative-argument dispatch", "tan.hpp"), ("negative-argument dispatch", "erf.hpp"), ("negative-argument dispatch", "atan.hpp")])

prop("C10", "Every call terminates without undefined behaviour and is a constant expression",
 "No call executes an undefined operation (signed overflow, integer division by zero, shift or conversion of a floating value outside the integer's range, access outside a table), for every argument of every floating type, NaN and the infinities included, and for integral arguments wherever the result can be represented: abs and gcd except of the smallest value, lcm of arguments below half the width, factorial and binomial_coef (integral) up to the largest representable row, pow with a representable power. Recursion is bounded: over the domains of the accuracy statements (long double square roots within 1e+-1000, logarithms and what is built on them up to 1e200) no call nests 500 deep, so the call is a constant expression under the compilers' default limits.",
 "all inputs of every public function within the stated value ranges; both language modes",
 "undefined behaviour is silent at run time and depends on exact input ranges; the test programs evaluate at run time and at a few points only",
 ["exp.hpp", "floor.hpp", "trunc.hpp", "find_whole.hpp", "find_exponent.hpp", "mantissa.hpp", "pow_integral.hpp", "gcd.hpp", "tgamma.hpp", "lmgamma.hpp", "sqrt.hpp"],
 [("float to integer conversion", "find_whole.hpp"), ("unbounded recursion", "mantissa.hpp"), ("recursion on negative arguments", "tgamma.hpp")])

prop("C11", "Integral and mixed arguments behave like their promoted floating values",
 "Calling a floating-point function with integral arguments gives exactly the result of the call with those arguments converted to double, and with arguments of different types the result of converting all of them to their common type; the result has that type.",
 "all int, unsigned, long long argument values and all mixed type pairs of the listed functions",
 "quantifies over all integers and all type combinations, each a separate template instantiation with its own dispatch",
 ["gcem_options.hpp", "log.hpp", "log2.hpp", "log10.hpp", "hypot.hpp", "atan2.hpp", "fmod.hpp", "incomplete_gamma.hpp", "incomplete_beta.hpp", "beta.hpp", "pow.hpp"],
 [("promotion types", "gcem_options.hpp"), ("integral logarithm dispatch", "log.hpp")])

prop("C12", "C++11 and C++14-or-later builds compute the same function",
 "For every argument, the value computed when the header is compiled as C++11 and when it is compiled as C++14 or later agrees: bit for bit where both run the same operations, and otherwise within the accuracy stated for the function.",
 "all inputs of every function with two implementations, and every function built on them",
 "the suite compares each mode with the standard library at a few points and never with each other; the two bodies are separate code that must stay equivalent for every input",
 ["exp.hpp", "log.hpp", "atan.hpp", "tanh.hpp", "erf.hpp"],
 [("two exp continued fractions", "exp.hpp"), ("two log continued fractions", "log.hpp"), ("two arctangent expansions", "atan.hpp"), ("two tanh continued fractions", "tanh.hpp"), ("two error-function fractions", "erf.hpp")])

def acc(id, title, statement, dom, files, mech):
    prop(id, title, statement, dom + "; " + FT,
         "accuracy must hold at every point of every branch interval; a wrong coefficient, threshold or iteration count degrades only a sub-range that the few test points miss",
         files, mech)

acc("C13", "exp and expm1 are accurate over their whole range",
 "For every x the relative error of exp is at most 1e-14 for double, 5e-6 for float and 1e-16 for long double as long as the result is a normal number; expm1 differs from the true value by at most the same tolerance times (1+|result|). exp overflows to infinity and underflows to zero only beyond the representable range.",
 "every x with a normal result", ["exp.hpp", "expm1.hpp", "find_whole.hpp", "find_fraction.hpp", "pow_integral.hpp"],
 [("continued fraction", "exp.hpp"), ("small-argument series", "expm1.hpp")])
acc("C14", "Logarithms are accurate for every positive argument",
 "For every positive normal x, log, log2 and log10 (and log1p for x > -1) differ from the true value by at most 1e-14 for double, 1e-5 for float and 1e-16 for long double, times (1+|result|).",
 "every positive normal number", ["log.hpp", "log1p.hpp", "log2.hpp", "log10.hpp", "mantissa.hpp", "find_exponent.hpp"],
 [("decimal split", "log.hpp"), ("mantissa", "mantissa.hpp"), ("exponent", "find_exponent.hpp")])
acc("C15", "Square root, inverse square root and hypot are accurate at every magnitude",
 "For every positive normal x, sqrt(x) and inv_sqrt(x), and hypot(x,y) for arguments whose result is representable, have relative error at most 1e-14 for double (3e-14 above 1e100), 5e-6 for float and 1e-16 for long double.",
 "every positive normal number", ["sqrt.hpp", "inv_sqrt.hpp", "hypot.hpp"],
 [("Newton iteration", "sqrt.hpp"), ("Newton iteration", "inv_sqrt.hpp"), ("scaled form", "hypot.hpp")])
acc("C16", "sin, cos and tan are accurate after argument reduction",
 "For every x with |x| up to 300 pi, sin and cos differ from the true value by at most 2e-14 (double), 2e-5 (float), 2e-16 (long double) times (1+|x|), and tan by that tolerance times (1+|x|)(1+tan^2), outside a small stated neighbourhood of the multiples of pi (sin, cos) and pi/2 (tan), where the library uses a fixed value for the pole.",
 "every |x| up to the bound outside the stated neighbourhoods", ["sin.hpp", "cos.hpp", "tan.hpp"],
 [("argument reduction and expansion near pi/2", "tan.hpp"), ("half-angle formula", "sin.hpp"), ("half-angle formula", "cos.hpp")])
acc("C17", "asin, acos and atan are accurate over their whole domain",
 "For every x, atan differs from the true value by at most 5e-15 for double, 2e-6 for float and 5e-17 for long double; for |x| up to 0.999, asin and acos differ by at most 1e-14, 5e-6 and 5e-16, and up to 0.99999 (float 0.9999) by at most 1e-12, 1e-4 and 1e-15.",
 "every x in [-1,1] (asin, acos), every finite x (atan)", ["asin.hpp", "acos.hpp", "atan.hpp"],
 [("branch thresholds of the expansion", "atan.hpp")])
acc("C18", "atan2 returns the angle in the correct quadrant",
 "For all finite y and x, atan2(y,x) lies in [-pi,pi], equals the argument of the point (x,y) within 1e-14 (double), 4e-6 (float), 1e-16 (long double), and has the standard values for zeros of either sign and on the axes.",
 "all pairs of finite values, by quadrant", ["atan2.hpp", "atan.hpp", "neg_zero.hpp"], [("quadrant dispatch", "atan2.hpp")])
acc("C19", "Hyperbolic sine, cosine and tangent are accurate",
 "For every x whose exponential is representable, sinh, cosh and tanh differ from the true value by at most 1e-14 (double), 1e-5 (float), 1e-16 (long double) times (1+|result|).",
 "every x up to the overflow bound", ["sinh.hpp", "cosh.hpp", "tanh.hpp"], [("continued fraction", "tanh.hpp")])
acc("C20", "Inverse hyperbolic functions are accurate",
 "For every x in the domain up to the stated magnitude, asinh, acosh and atanh differ from the true value by at most 1e-13 (double), 2e-5 (float), 1e-15 (long double) times (1+|result|) (acosh: from 1.01 on; atanh: |x| up to 0.999).",
 "every x in the domain", ["asinh.hpp", "acosh.hpp", "atanh.hpp"], [("logarithmic forms", "asinh.hpp")])
acc("C21", "Real powers of positive bases are accurate",
 "For every positive base and real exponent with |y log x| up to the stated bound, pow(x,y) has relative error at most the unit tolerance (1e-14 double, 1e-5 float, 1e-16 long double) times 20(1+|y|)(1+|log x|); negative bases with non-integral type exponents give NaN.",
 "every base at each stated exponent and every exponent at each stated base", ["pow.hpp", "exp.hpp", "log.hpp"], [("exponential of the logarithm", "pow.hpp")])
acc("C22", "Gamma function and its logarithm are accurate",
 "For every x up to the stated bound, lgamma differs from the true value by at most 2e-12 (double, 1e-12 long double) or 2e-4 (float) times (1+|result|); tgamma (also of negative non-integers at least 0.01 from an integer, within the bound) and factorial of real arguments have relative error at most 1e-11 (float 2e-3), and tgamma of negative integers is NaN.",
 "every positive x up to the bound, negative non-integers above the bound", ["lgamma.hpp", "tgamma.hpp", "factorial.hpp"], [("Lanczos coefficients", "lgamma.hpp"), ("recurrence for negative arguments", "tgamma.hpp")])
acc("C23", "Beta, log-beta, multivariate log-gamma and log-binomial agree with gamma",
 "For positive arguments up to the stated bounds, beta and lbeta, lmgamma and log_binomial_coef equal their defining combinations of the true gamma function: beta with relative error at most 1e-10 (float 5e-3), the others within 1e-11 (float 5e-4) times (1+|result|); lmgamma with order below one is NaN.",
 "every value of each argument with the others at stated values", ["beta.hpp", "lbeta.hpp", "lmgamma.hpp", "log_binomial_coef.hpp"], [("log-beta", "lbeta.hpp"), ("multivariate recursion", "lmgamma.hpp")])
acc("C24", "The error function is accurate on the whole line",
 "For every x, erf differs from the true value by at most 1e-13 (double), 1e-5 (float), 1e-16 (long double) for |x| up to 1 or above 2.11, ten times that up to 1.5, and by at most 2e-11, 5e-3, 1e-14 between 1.5 and 2.11; it never exceeds 1 in magnitude by more than rounding.",
 "every finite x", ["erf.hpp"], [("small-argument fraction", "erf.hpp"), ("large-argument fraction", "erf.hpp")])
acc("C25", "The inverse error function inverts the error function",
 "For every p strictly between -1 and 1 up to the stated distance from the ends, erf_inv(p) differs from the true inverse by at most 1e-11 (double), 1e-12 (long double) or 6e-3 (float) for |p| up to 0.8, and by at most 1e-8 (double) or 1e-10 (long double) for |p| up to 0.998 outside the stated windows.",
 "every p in the open interval", ["erf_inv.hpp"], [("initial value", "erf_inv.hpp"), ("Halley iteration", "erf_inv.hpp")])
acc("C26", "The regularized incomplete gamma function is accurate",
 "For positive shape a and every x >= 0, incomplete_gamma(a,x) differs from the true regularized lower incomplete gamma on the stated ranges by at most 1e-12 (double; 1e-10 for a+5 < x < a+10; float 1e-3 and 2e-2) for a < 10, and by at most 1e-12 a (double) or 5e-5 a (float) for a >= 10; it stays within [0,1] up to that error, and is 0 for x = 0.",
 "every x at each stated shape parameter, covering every method branch", ["incomplete_gamma.hpp", "quadrature/gauss_legendre_50.hpp"], [("method selection", "incomplete_gamma.hpp"), ("quadrature nodes and weights", "quadrature/gauss_legendre_50.hpp")])
acc("C27", "The inverse incomplete gamma function inverts it",
 "For positive a and every p in (0,1) in the stated ranges, incomplete_gamma_inv(a,p) differs from the true inverse by at most 1e-9 (double), 1e-2 (float) or 1e-11 (long double) times (1+|result|); p = 0 gives 0, p = 1 gives infinity.",
 "every p at each stated shape parameter", ["incomplete_gamma_inv.hpp"], [("initial value", "incomplete_gamma_inv.hpp"), ("Halley iteration", "incomplete_gamma_inv.hpp")])
acc("C28", "The regularized incomplete beta function is accurate",
 "For positive a and b and every z in [0,1], incomplete_beta(a,b,z) differs from the true value by at most 1e-13 (double), 1e-4 (float) or 1e-15 (long double) on the stated ranges, with value 0 at 0 and 1 at 1.",
 "every z at each stated parameter pair", ["incomplete_beta.hpp"], [("continued fraction", "incomplete_beta.hpp"), ("symmetry switch", "incomplete_beta.hpp")])
acc("C29", "The inverse incomplete beta function inverts it",
 "For positive a and b and every p in (0,1) in the stated ranges, incomplete_beta_inv(a,b,p) differs from the true inverse by at most 1e-9 (double), 1e-3 (float) or 1e-11 (long double); p = 0 gives 0 and p = 1 gives 1.",
 "every p at each stated parameter pair", ["incomplete_beta_inv.hpp"], [("initial value", "incomplete_beta_inv.hpp"), ("Halley iteration", "incomplete_beta_inv.hpp")])

# ---------------------------------------------------------------- manifest
CLAIMED = {}   # id -> (technique, level_note), filled by claims.py
try:
    from claims import CLAIMED, NA
except ImportError:
    NA = {}
if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in CLAIMED:
            t, note = CLAIMED[p["id"]]
            checks.append(dict(property=p["id"],
                quick_cmd="python3-vt /verif/check.py %s --tier quick" % p["id"],
                thorough_cmd="python3-vt /verif/check.py %s --tier thorough" % p["id"],
                technique=t, level="model_checking", level_note=note))
        else:
            na.append(dict(property=p["id"], reason=NA.get(p["id"], "no check built yet")))
    m = dict(version=1, setup_cmd="bash /verif/setup.sh", checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
