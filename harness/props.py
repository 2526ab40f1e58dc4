"""The properties, and the units that decide each of them.

PROPS[id]: everything properties.jsonl, MANIFEST.json and the driver need.
units(id, tier): the units of a check.
gen.py writes properties.jsonl and MANIFEST.json from this file.
"""

S = "src/ajdmom/"
PROPS = {}

GF = ("Rational identities in the model's symbols are decided at random points of GF(46337) "
      "(Schwartz-Zippel: a wrong answer of total degree d escapes one point with probability below "
      "d/46337); e^{kt}, t, k and the parameters are independent symbols there.")
TRUST = "TLC and the harness' projection of results (names of keyfor to residues) are trusted."


def prop(pid, title, statement, over, text, why, files, mechanism, rule, assumptions=(GF, TRUST),
         technique="TLA+ specification (generator moment machine), TLC validates traces of the "
                   "library's answers", level="model_checking", note=""):
    PROPS[pid] = dict(
        title=title, statement=statement, over=over, text=text, why=why,
        files=[S + f for f in files],
        mechanism=[dict(name=n, where=S + w) for n, w in mechanism],
        rule=rule, assumptions=list(assumptions), technique=technique, level=level,
        note=note or "Complete for the orders and symbolic points explored, up to the stated error "
                     "of random evaluation; larger orders are not covered.")


MODEL_RULE = ("one case = one library answer (a formula for one order) evaluated at one random "
              "point of the model's symbols and compared with the moment the specification "
              "derives from the infinitesimal generator; all orders up to the stated bound")

# ------------------------------------------------------------------ C01..C04
prop("C01", "Exact polynomials form a ring",
     "Adding, subtracting, multiplying, scaling and raising exact polynomials to a power always "
     "gives exactly the polynomial that ordinary algebra over the rationals prescribes, with terms "
     "that cancel removed and the names of the variables kept. The operands are left unchanged; "
     "only the operations documented as in-place (merge, adding one term, removing zero terms, "
     "renaming) change the polynomial, and they change only the one they are applied to; merge returns it. Polynomials in "
     "different variables, powers that are not positive, and operands of the wrong type are refused "
     "with an error and leave every operand unchanged.",
     ["inputs", "histories"], "all polynomials, all sequences of operations and all ways of sharing "
     "one polynomial between variables",
     "test_poly.py applies each operation once to one small pair of polynomials and never checks "
     "cancellation, sharing or operands after the operation.",
     ["poly.py"], [("Poly arithmetic", "poly.py"), ("in-place merge / add_keyval", "poly.py")],
     "one case = one step of a behaviour of PolyAlg generated by TLC (seeded random choice of "
     "operation, registers and operands), replayed on the library with all registers compared "
     "afterwards; distinct steps are counted by operation and operands",
     assumptions=[TRUST], technique="TLA+ register machine; TLC generates behaviours, replayed on "
     "the library with every register compared after every step")
prop("C02", "Structured products, type comparison and written files keep every term",
     "Multiplying two polynomials with a map from the old exponents to the new ones gives exactly the "
     "sum over all pairs of terms of the product of the coefficients at the mapped exponents. Comparing the types of two "
     "polynomials answers yes exactly when they have the same names. Writing a polynomial to a text or "
     "CSV file stores every term once with its exact coefficient and every exponent under the right "
     "name, for every polynomial including those with jump exponents and the empty one, so that the "
     "polynomial can be recovered from the file.",
     ["inputs", "histories"], "all polynomials, exponent maps, names and file names",
     "the tests multiply one pair, and write one polynomial to a file without reading it back.",
     ["poly.py"], [("mul_poly", "poly.py"), ("is_exact_type", "poly.py"),
                   ("write_to_txt / write_to_csv", "poly.py")],
     "one case = one structured product or comparison inside a behaviour generated by TLC, or one "
     "written file whose cells TLC compares with the polynomial",
     assumptions=[TRUST], technique="TLA+ register machine with behaviours replayed on the library; "
     "TLA+ specification of the file contents validates traces of written files")
prop("C03", "Enumerations and counting helpers are complete and exact",
     "The enumeration of multi-indices returns every tuple of the requested length with entries below "
     "the bound exactly once, the enumeration of weak compositions returns every tuple of the requested "
     "length with the requested sum exactly once, and multinomial coefficients and double "
     "factorials are exact for every argument. The sum over all tuples of jumps computed for a jump "
     "functional equals the literal sum over all tuples of the product of the exponential, time, size "
     "and running-latest-jump factors.",
     ["inputs"], "all lengths, sums, bounds, exponents and jump paths",
     "tests check two lengths and one sum with one jump path.",
     ["utils.py", "mdl_srjd/cond2_mom.py"],
     [("multilevel_index / multilevel_comb", "utils.py"), ("comb, dbfactorial, cmnorm", "utils.py"),
      ("fZ", "utils.py"), ("fZ", "mdl_srjd/cond2_mom.py")],
     "one case = one call with one argument tuple; all argument tuples up to the bound",
     assumptions=[TRUST], technique="TLA+ definitions of the enumerations; TLC validates traces of "
     "calls", note="Complete up to the argument bounds.")
prop("C04", "Time integrals of exponential-power terms are exact",
     "The closed forms for the integral over time of e^{nks}s^m, of its two-rate version "
     "e^{(n1 k1+n2 k2)s}s^m, and of its version weighted by a jump sum that starts at each jump time are "
     "the exact integrals, for every (also negative or cancelling) exponent and every power of time, "
     "and the value at the lower limit is included. A negative power of time is refused with ValueError.",
     ["inputs"], "all integer exponents, powers m >= 0, rates, jump paths and tuple lengths",
     "tests compare three formulas for fixed exponents.",
     ["ito_mom.py", "itos_mom.py", "ito_cond_mom.py"],
     [("int_et", "ito_mom.py"), ("int_et, c", "itos_mom.py"), ("int_et_fZ", "ito_cond_mom.py")],
     "one case = one call (n, m), (n1, n2, m) or (n, m, N) at one random point",
     technique="TLA+ quasi-polynomial calculus (antiderivative checked against its derivative); TLC "
     "validates traces of calls")

# ------------------------------------------------------------------ C05..C08
prop("C05", "Stationary moments of the square-root diffusion",
     "For every order the closed form for the steady-state moment of the square-root (CIR) variance "
     "equals the moment of the diffusion's stationary law.",
     ["inputs"], "all orders and all parameter values",
     "the tests fix orders 0 to 2.",
     ["ito_mom.py"], [("moment_v", "ito_mom.py")], MODEL_RULE)
prop("C06", "Joint moments of the Ito integrals, one variance factor",
     "For all orders (n3,n4,n5) the conditional joint moment of the exponentially weighted integral, the "
     "plain integral and the integral against the independent Brownian motion, from the start of an "
     "interval to any later time, equals the moment implied by the square-root dynamics given the "
     "variance at the start of the interval.",
     ["inputs"], "all orders, times, start times and parameter values",
     "tests fix a handful of orders of total at most 3.",
     ["ito_mom.py"], [("recursive_IEII / moment_IEII", "ito_mom.py"), ("int_et", "ito_mom.py")], MODEL_RULE)
prop("C07", "Joint moments of the Ito integrals, two variance factors",
     "For all orders the conditional joint moment of the five Ito integrals of a superposition of two "
     "square-root variances equals the moment implied by the dynamics given both initial variances, and "
     "asking for all moments up to an order gives the same formulas as asking for one.",
     ["inputs"], "all orders, times, start times and parameter values",
     "tests fix a handful of orders of total at most 3.",
     ["itos_mom.py"], [("recursive_IEI_IEII / moment_IEI_IEII", "itos_mom.py"), ("coef_poly", "itos_mom.py")],
     MODEL_RULE)
prop("C08", "Moments of normal jumps and of their compound Poisson sums",
     "For every order the moment and central moment of a compound Poisson sum of normal jumps over an "
     "interval, by every documented route, equal the exact moments; the moments of the normal jump size "
     "itself are exact too.",
     ["inputs"], "all orders, jump means, jump deviations and intensities",
     "tests fix orders up to 3 or 4.",
     ["cpp_mom.py", "utils.py"], [("mcpp, mcpp_original, cmcpp", "cpp_mom.py"), ("mnorm", "cpp_mom.py"),
                                  ("cmnorm", "utils.py")], MODEL_RULE)

# ------------------------------------------------------------------ C09..C13
FOUR = {"C09": ("1fsv", "Heston stochastic volatility (one variance factor)"),
        "C11": ("1fsvj", "one-factor stochastic volatility with price jumps"),
        "C12": ("2fsv", "two-factor stochastic volatility"),
        "C13": ("2fsvj", "two-factor stochastic volatility with price jumps")}
for _pid, (_m, _t) in FOUR.items():
    _auto = _m != "1fsv"
    prop(_pid, f"Moments{' and autocovariances' if _auto else ''} of returns: {_m} model",
         f"For every order the closed forms for the moment and the central moment of the return in the "
         f"{_t} model equal the moments of the model's stationary law over one interval"
         + (", and the product moment and covariance of powers of two successive returns equal those of "
            "the stationary model, with the earlier return's power given first." if _auto else "."),
         ["inputs"], "all orders, interval lengths and parameter values",
         "the tests compare a few low orders at one parameter point, to limited accuracy, or only that "
         "a known low-order formula is reproduced.",
         [f"mdl_{_m}/mom.py", f"mdl_{_m}/cmom.py"] + ([f"mdl_{_m}/cov.py"] if _auto else []),
         [("moment_y", f"mdl_{_m}/mom.py"), ("cmoment_y", f"mdl_{_m}/cmom.py")]
         + ([("moment_yy / cov_yy", f"mdl_{_m}/cov.py")] if _auto else []), MODEL_RULE)
prop("C10", "Autocovariances of returns: 1fsv model",
     "For all pairs of orders the product moment and the covariance of powers of two successive returns in the "
     "Heston model equal those of the stationary model, with the earlier return's power given first.",
     ["inputs"], "all order pairs, interval lengths and parameter values",
     "tests look at covariance orders (1,1) and (2,1).",
     ["mdl_1fsv/cov.py"], [("moment_yy / cov_yy", "mdl_1fsv/cov.py"), ("exp_vn", "mdl_1fsv/cov.py")], MODEL_RULE)

# ------------------------------------------------------------------ C14, C15
prop("C14", "Parameter derivatives are the exact derivatives",
     "For each of the four return models, differentiating a formula with respect to any model parameter "
     "gives exactly the partial derivative of that formula, with the dependence of the exponential, of 1/k "
     "and of sqrt(1-rho^2) taken into account.",
     ["inputs"], "all formulas of the models (moments, central moments, covariances and any polynomial in "
     "their variables) and all parameters",
     "tests differentiate one or two formulas.",
     [f"mdl_{m}/{f}.py" for m in ("1fsv", "1fsvj", "2fsv", "2fsvj") for f in ("mom", "cmom")],
     [("dpoly", "mdl_1fsv/mom.py"), ("dpoly", "mdl_1fsvj/mom.py"), ("dpoly, dt0", "mdl_2fsv/cmom.py"),
      ("dpoly", "mdl_2fsvj/mom.py")],
     "one case = one derivative (a formula or a random polynomial, one parameter) at one random point, "
     "compared with the sum over terms and names of the derivative given by the name's definition",
     technique="TLA+ definition of the derivative from the meaning of the names; TLC validates traces")
prop("C15", "Numbers computed for given parameters equal the formulas",
     "For the models that are given by parameter values only, the number returned for a moment, central "
     "moment, covariance or derivative at given parameters equals the exact formula evaluated at those "
     "parameters, up to floating-point rounding, for every admissible parameter point.",
     ["inputs"], "all parameter points including zero drift, zero or perfect correlation and any interval",
     "tests evaluate a couple of quantities at one point.",
     ["mdl_1fsv/mom.py", "mdl_1fsv/cmom.py", "mdl_1fsv/cov.py", "mdl_1fsv/cond_cmom.py",
      "mdl_1fsvj/mom.py", "mdl_1fsvj/cmom.py", "mdl_1fsvj/cov.py", "mdl_2fsv/mom.py", "mdl_2fsv/cmom.py",
      "mdl_2fsv/cov.py", "mdl_2fsvj/mom.py", "mdl_2fsvj/cmom.py", "mdl_2fsvj/cov.py", "mdl_srjd/cond_mom.py",
      "mdl_srjd/cond_cmom.py", "mdl_srjd/iez_mom.py", "mdl_srjd/iez_cmom.py", "mdl_srjd/cond_ie_iez_mom.py",
      "mdl_srjd/cond_ie_iez_cmom.py", "mdl_svcj/ieziziz_mom.py", "mdl_svcj/cond_ieii_ieziziz_mom.py",
      "mdl_svcj/cond_mom.py", "mdl_svcj/cond_cmom.py", "mdl_svcj/mom.py", "mdl_svcj/cmom.py"],
     [("poly2num / m / dm", "mdl_1fsv/mom.py"), ("poly2num", "mdl_2fsv/mom.py"),
      ("poly2num / m_y", "mdl_svcj/cond_mom.py")],
     "one case = one number the library returned for one parameter point, compared in multi-limb "
     "real arithmetic with the sum over the terms of the formula",
     assumptions=["The specification evaluates the terms with 17 to 20 significant digits (five limbs in base "
                  "10^4, exponentials by Taylor's series); tolerance 1e-11 of the sum of the absolute terms. "
                  "Parameter points are decimal numbers drawn at random, with edge cases (zero drift, zero "
                  "intensity, perfect correlation) forced in turn.", TRUST],
     technique="TLA+ multi-limb evaluation of the names' meaning; TLC validates traces of scalar calls",
     note="Exact formulas are decided by the other properties; here only the evaluation is.")

# ------------------------------------------------------------------ C16..C19
prop("C16", "Jump integral and joint integral moments: SRJD model",
     "For every order the moment and the central moment of the exponentially weighted jump integral over "
     "any interval, and the joint moments of the Ito integral with the jump integral (raw, or centred in the jump "
     "integral), equal those of the square-root diffusion with compound Poisson exponential jumps given "
     "the initial variance.",
     ["inputs"], "all orders, intervals and parameter values", "tests fix a few orders up to 3.",
     ["mdl_srjd/iez_mom.py", "mdl_srjd/iez_cmom.py", "mdl_srjd/cond_ie_iez_mom.py",
      "mdl_srjd/cond_ie_iez_cmom.py"],
     [("moment_IEZ", "mdl_srjd/iez_mom.py"), ("cmoment_IEZ", "mdl_srjd/iez_cmom.py"),
      ("moment_ie_iez", "mdl_srjd/cond_ie_iez_mom.py"), ("cmoment_ie_iez", "mdl_srjd/cond_ie_iez_cmom.py")],
     MODEL_RULE)
prop("C17", "Conditional moments of the variance: SRJD model",
     "For every order the moment and central moment of the variance (and of its exponentially scaled "
     "deviation) of the square-root jump diffusion given its initial value equal the model's moments.",
     ["inputs"], "all orders, horizons and parameter values", "tests fix orders up to 3.",
     ["mdl_srjd/cond_mom.py", "mdl_srjd/cond_cmom.py"],
     [("moment_v, moment_x", "mdl_srjd/cond_mom.py"), ("cmoment_v, cmoment_x", "mdl_srjd/cond_cmom.py")],
     MODEL_RULE)
prop("C18", "Unconditional moments of the variance: SRJD model",
     "For every order the steady-state moment and central moment of the square-root jump diffusion equal "
     "those of its stationary law; the simplified and unsimplified moment are the same function, and the "
     "conditional moment about the steady-state mean is exact.",
     ["inputs"], "all orders and parameter values", "tests fix orders up to 3.",
     ["mdl_srjd/mom.py", "mdl_srjd/cmom.py"],
     [("moment_v, expand", "mdl_srjd/mom.py"), ("cmoment_v, solve_polynomial", "mdl_srjd/cmom.py")], MODEL_RULE)
prop("C19", "Moments of the variance given the jump path: SRJD model",
     "For every order and every path of jump times and sizes, including none, the moment and central "
     "moment of the variance given its initial value and that path equal those of the diffusion that jumps "
     "by the given sizes at the given times.",
     ["inputs", "histories"], "all orders, horizons, parameter values and jump paths",
     "tests fix one path.",
     ["mdl_srjd/cond2_mom.py", "mdl_srjd/cond2_cmom.py"],
     [("moment_v, moment_IE", "mdl_srjd/cond2_mom.py"), ("cmoment_v", "mdl_srjd/cond2_cmom.py")],
     MODEL_RULE + "; paths with 0 to 4 jumps")

# ------------------------------------------------------------------ C20..C27
prop("C20", "Joint Ito moments given the jump path of the variance",
     "For all orders and every jump path of the variance, the conditional joint moment of the weighted, the "
     "plain and the independent Ito integral equals that of the diffusion that jumps by the given sizes at "
     "the given times.",
     ["inputs", "histories"], "all orders, horizons, parameter values and jump paths",
     "tests check a few orders symbolically at most 3.",
     ["ito_cond_mom.py"], [("recursive_IEII / moment_IEII", "ito_cond_mom.py"),
                           ("int_e_IEZ_poly, int_et_fZ", "ito_cond_mom.py")],
     MODEL_RULE + "; paths with 0 to 3 jumps")
prop("C21", "Jump integrals and joint integrals: SVCJ model",
     "For all orders the joint moments of the weighted and plain variance-jump sums and the price-jump sum "
     "over any interval, and their joint moments with the three Ito integrals given the initial variance, "
     "equal those of the contemporaneous-jump dynamics.",
     ["inputs"], "all orders, intervals and parameter values", "tests fix a few orders up to 3.",
     ["mdl_svcj/ieziziz_mom.py", "mdl_svcj/cond_ieii_ieziziz_mom.py"],
     [("moment_ieziziz", "mdl_svcj/ieziziz_mom.py"),
      ("moment_ieii_ieziziz", "mdl_svcj/cond_ieii_ieziziz_mom.py")], MODEL_RULE)
prop("C22", "Conditional moments of the return: SVCJ model",
     "For every order the moment and central moment of the return given the initial variance, in the model "
     "with contemporaneous and correlated jumps in price and variance, equal the model's moments.",
     ["inputs"], "all orders, horizons and parameter values", "tests fix low orders.",
     ["mdl_svcj/cond_mom.py", "mdl_svcj/cond_cmom.py"],
     [("moment_y, b_n", "mdl_svcj/cond_mom.py"), ("cmoment_y", "mdl_svcj/cond_cmom.py")], MODEL_RULE)
prop("C23", "Unconditional moments of the return: SVCJ model",
     "For every order the moment and central moment of the return over one interval in the stationary model "
     "with contemporaneous jumps equal the model's moments, and so do the stationary moments of the "
     "variance's deviation from its diffusive mean.",
     ["inputs"], "all orders, horizons and parameter values", "tests fix low orders.",
     ["mdl_svcj/mom.py", "mdl_svcj/cmom.py"],
     [("moment_y, moment_v_theta", "mdl_svcj/mom.py"), ("cmoment_y", "mdl_svcj/cmom.py")], MODEL_RULE)
for _pid, _m, _t in (("C24", "svvj", "jumps in the variance"),
                     ("C25", "svij", "independent jumps in the price and the variance"),
                     ("C26", "svcj", "contemporaneous correlated jumps in price and variance")):
    prop(_pid, f"Moments of the return given the jump path: {_m} model",
         f"For every order and every path of variance jumps, including none, the moment and central moment of "
         f"the return given the initial variance and that path, in the model with {_t}, equal the model's "
         f"moments; asking for one order and asking for all up to it give the same formula.",
         ["inputs", "histories"], "all orders, horizons, parameter values and jump paths",
         "tests fix one path at one parameter point, to Monte Carlo accuracy or not at all.",
         [f"mdl_{_m}/cond2_mom.py", f"mdl_{_m}/cond2_cmom.py"],
         [("moments_y_to, moment_y", f"mdl_{_m}/cond2_mom.py"),
          ("cmoments_y_to, cmoment_y", f"mdl_{_m}/cond2_cmom.py")],
         MODEL_RULE + "; paths with 0 to 3 jumps")
prop("C27", "Conditional central moments of the return: 1fsv model",
     "For every order the central moment of the return of the Heston model given the initial variance "
     "equals the model's central moment, whichever highest order is requested with it.",
     ["inputs"], "all orders, horizons and parameter values", "tests fix low orders.",
     ["mdl_1fsv/cond_cmom.py"], [("cmoments_y_to", "mdl_1fsv/cond_cmom.py"), ("simplify", "mdl_1fsv/cond_cmom.py")],
     MODEL_RULE)

# ------------------------------------------------------------------ C28..C33
prop("C28", "Rewriting a formula does not change its value",
     "Simplifications and changes of variables of formulas (expanding a composite variable, eliminating "
     "sqrt(1-rho^2), grouping or splitting terms, dropping an unused drift column) produce formulas of the "
     "same value for every input formula, in the target variables they announce.",
     ["inputs"], "all formulas over the variables each rewriting accepts, all parameter values",
     "tests apply simplifications only on the way to a fixed result.",
     ["utils.py", "mdl_1fsv/cond_cmom.py", "mdl_svvj/cond2_cmom.py", "mdl_svcj/cond_mom.py", "mdl_srjd/mom.py",
      "mdl_svcj/cmom.py"],
     [("simplify_rho", "utils.py"), ("simplify", "mdl_1fsv/cond_cmom.py"), ("simplify", "mdl_svvj/cond2_cmom.py"),
      ("expand_sqrt", "mdl_svcj/cond_mom.py"), ("expand", "mdl_srjd/mom.py")],
     "one case = one rewriting of one random polynomial (or library formula) at one random point",
     technique="TLA+ evaluation of both sides from the names' meaning; TLC validates traces")
prop("C29", "Results depend only on the request, never on earlier calls",
     "The same request always gives the same result, whatever other requests were made before, in whatever "
     "order, and whatever the caller did to results it was given earlier. No request changes a formula or a "
     "parameter set that the caller holds.",
     ["histories", "inputs"], "all sequences of requests and of changes by the caller to returned results",
     "each test makes its requests in one fixed order in one process.",
     ["ito_mom.py", "itos_mom.py", "ito_cond_mom.py", "poly.py", "mdl_1fsv/mom.py", "mdl_2fsv/mom.py",
      "mdl_svcj/cond2_mom.py", "mdl_srjd/cmom.py"],
     [("recursion tables seeded with module-level formulas", "ito_mom.py"),
      ("tables of known formulas", "mdl_svcj/cond_ieii_ieziziz_mom.py"), ("merge", "poly.py")],
     "one case = one request inside a history of requests and caller mutations generated by TLC; its result "
     "is compared with the result of the same request made first in a fresh process",
     assumptions=[TRUST], technique="TLA+ session machine; TLC generates histories, replayed on the library "
     "and validated as traces")
prop("C30", "Simulators step the model's equations",
     "Given the random numbers drawn, every simulator returns the path that the model's discretised "
     "equations prescribe from the given initial state: the right number of steps and returns, diffusions "
     "correlated as the model says, and every jump applied once at its time with its size.",
     ["inputs", "histories"], "all parameter values, numbers of steps and segments, jump paths and random draws",
     "the tests call some simulators once and look at the output's shape or nothing.",
     [f"mdl_{m}/euler.py" for m in ("1fsv", "1fsvj", "2fsv", "2fsvj", "srjd", "svvj", "svij", "svcj")],
     [("r1FSV", "mdl_1fsv/euler.py"), ("rSRJD", "mdl_srjd/euler.py"), ("rIEII", "mdl_svvj/euler.py")],
     "one case = one simulator run on controlled random numbers, replayed step by step by TLC",
     technique="TLA+ step machine of the discretised model; TLC validates traces of simulator runs with "
     "controlled random draws", assumptions=[TRUST])
prop("C31", "Meaningless requests are refused",
     "Requests without a meaning end in an error and never in a formula or a number: a negative order of a joint moment of "
     "Ito or jump integrals, of a compound Poisson or normal jump, of a steady-state variance or of a SVCJ return; a "
     "negative power of time in an integral; a derivative with respect to a name that is no parameter of the model; sums, "
     "products and merges of polynomials in different variables; a power of a polynomial that is not positive; removing an odd "
     "power of sqrt(1-rho^2). Where an error is documented (ValueError for orders, times and parameters, "
     "NotImplementedError for polynomials) it is that one. The corresponding requests with a meaning never raise.",
     ["inputs"], "all orders, including negative and mixed ones, all names, all pairs of formulas",
     "tests check a single refusal.",
     ["ito_mom.py", "itos_mom.py", "ito_cond_mom.py", "cpp_mom.py", "poly.py", "mdl_1fsv/mom.py", "mdl_1fsv/cmom.py",
      "mdl_1fsvj/mom.py", "mdl_1fsvj/cmom.py", "mdl_2fsv/mom.py", "mdl_2fsv/cmom.py", "mdl_2fsvj/mom.py",
      "mdl_2fsvj/cmom.py", "mdl_svcj/ieziziz_mom.py", "mdl_svcj/cond_ieii_ieziziz_mom.py",
      "mdl_srjd/cond_ie_iez_mom.py", "mdl_srjd/cond_ie_iez_cmom.py"],
     [("order checks", "ito_mom.py"), ("order checks", "itos_mom.py"), ("dpoly's parameter check", "mdl_1fsv/mom.py"),
      ("keyfor checks", "poly.py")],
     "one case = one request (orders in a box around zero; all parameter names and several others; all pairs of formulas)",
     technique="TLA+ table of meaningful requests; TLC validates traces of requests", assumptions=[TRUST])
prop("C32", "Numbers computed for a given jump path equal the formulas",
     "For the models conditioned on a jump path, the number returned for a moment or central moment at given "
     "parameters, jump sizes and jump times equals the exact formula evaluated there, up to floating-point "
     "rounding, for every admissible parameter point and path.",
     ["inputs", "histories"], "all parameter points and jump paths", "tests evaluate one path at one point.",
     ["mdl_srjd/cond2_mom.py", "mdl_srjd/cond2_cmom.py", "mdl_svvj/cond2_mom.py", "mdl_svvj/cond2_cmom.py",
      "mdl_svij/cond2_mom.py", "mdl_svij/cond2_cmom.py", "mdl_svcj/cond2_mom.py", "mdl_svcj/cond2_cmom.py"],
     [("poly2num / m", "mdl_svvj/cond2_mom.py"), ("poly2num / m", "mdl_svcj/cond2_mom.py"), ("fZ", "utils.py")],
     "one case = one number the library returned for one parameter point and path, compared in multi-limb "
     "real arithmetic with the sum over the terms of the formula",
     assumptions=["The specification evaluates the terms with 17 to 20 significant digits (five limbs in base "
                  "10^4, exponentials by Taylor's series); tolerance 1e-11 of the sum of the absolute terms. "
                  "Parameter points are decimal numbers drawn at random, with edge cases (zero drift, zero "
                  "intensity, perfect correlation) forced in turn.", TRUST],
     technique="TLA+ multi-limb evaluation of the names' meaning; TLC validates traces of scalar calls",
     note="Exact formulas are decided by the other properties; here only the evaluation is.")
prop("C33", "Every formula is returned in canonical exact form",
     "Every formula the library returns has exact (rational) coefficients, and every term has exactly one exponent for "
     "each announced name, an integer (or, for the names documented as compound, the documented tuple of integers; the "
     "tuples of a jump functional fit together, and the factors of a product of powers of n1*k1+n2*k2 have different "
     "rates). The announced names are those documented for that kind of formula. "
     "Moments, central moments and covariances of the four return models contain no term with coefficient zero.",
     ["inputs"], "all requests of all models and orders",
     "tests compare a few low-order formulas.",
     ["poly.py", "ito_mom.py", "itos_mom.py", "ito_cond_mom.py", "cpp_mom.py", "mdl_1fsv/mom.py", "mdl_2fsv/mom.py",
      "mdl_srjd/cmom.py", "mdl_svcj/mom.py", "mdl_svvj/cond2_mom.py"],
     [("remove_zero after each product", "poly.py"), ("keyfor set by each formula", "ito_mom.py")],
     "one case = one formula returned by the library, whose every term TLC checks against the documented names",
     technique="TLA+ definition of canonical form per kind of formula; TLC validates traces", assumptions=[TRUST])


# ------------------------------------------------------------------ units
def A(name, build, *args, points=2):
    """sessions of the moment machine"""
    return dict(name=name, run="units.ajd", args=dict(build=build, args=list(args), points=points))


def units(pid, tier):
    T = tier == "thorough"
    f = UNITS.get(pid)
    return f(T) if f else []


def four(model, m, c, cov, tm, tc, tcov, extra=()):
    def f(T):
        L, LC, V = (tm, tc, tcov) if T else (m, c, cov)
        u = [A(f"mom{L}", "return_moments", model, L, -1, []),
             A(f"cmom{LC}", "return_moments", model, -1, LC, []),
             A(f"cov{V}", "return_moments", model, -1, -1, ["covs", V])]
        return u + [A(f"cov{a}-{b}", "return_moments", model, -1, -1, [[a, b]], points=1)
                    for a, b in (extra if not T else ())]
    return f


def fsv_units(what, T):
    if what == "C09":
        L = 10 if T else 8
        return [A(f"mom{L}", "return_moments", "1fsv", L, -1, []),
                A(f"cmom{L}", "return_moments", "1fsv", -1, L, [])]
    return ([A("cov5", "return_moments", "1fsv", -1, -1, ["covs", 5])]
            + [A(f"cov{a}-{b}", "return_moments", "1fsv", -1, -1, [[a, b]], points=1)
               for a, b in ([(1, 5), (5, 1), (2, 4), (4, 2), (3, 3), (2, 5), (3, 4), (4, 3), (5, 2)] if not T
                            else [(a, n - a) for n in (6, 7) for a in range(1, n)])])


def U(name, run, **args):
    return dict(name=name, run=run, args=args)


def B(name, kinds, num, depth=16, nreg=4):
    return dict(name=name, run="replay.polyalg", args=dict(kinds=kinds, num=num, depth=depth, nreg=nreg))


C2 = [[1, 1], [2, 1], [1, 2]]
C3 = C2 + [[2, 2]]
DERIVS = {"1fsv": ["k", "mu", "theta", "sigma_v", "rho"],
          "1fsvj": ["k", "mu", "theta", "sigma_v", "rho", "lambda", "mu_j", "sigma_j"],
          "2fsv": ["k1", "k2", "mu", "theta1", "sigma_v1", "theta2", "sigma_v2"],
          "2fsvj": ["k1", "k2", "mu", "theta1", "sigma_v1", "theta2", "sigma_v2", "lambda", "mu_j", "sigma_j"]}

UNITS = {
    "C01": lambda T: [B(f"ring{i}", ["ring", "place", "type"], 400 if T else 60, 18) for i in range(6)]
    + [B("two", ["ring", "place"], 100, 24, 2), dict(name="laws", run="replay.laws"),
       U("large", "polys.ring", n=300 if T else 40, big=60 if T else 25, powers=list(range(1, 33 if T else 20)) + [31, 32, 33],
         ops=["add", "sub", "mul", "rmul", "pow", "merge"]), U("foreign", "api.foreign", n=200 if T else 26)],
    "C02": lambda T: [B(f"mulx{i}", ["mulx", "type", "place"], 400 if T else 60, 14) for i in range(3)]
    + [U("large", "polys.ring", n=400 if T else 60, big=60 if T else 25, powers=[], ops=["mulx"])]
    + [U("files", "tables.files", reps=60 if T else 6), U("types", "api.foreign", n=200 if T else 26)],
    "C03": lambda T: [U("enums", "tables.enums", top=8 if T else 1), U("jumpsums", "tables.jumpsums", reps=600 if T else 120)],
    "C04": lambda T: [U("integrals", "polys.integrals", reach=10 if T else 9, mmax=12 if T else 8)],
    "C14": lambda T: [U(m, "polys.derivs", model=m, order=(6 if m[0] == "1" else 5) if T else (4 if m[0] == "1" else 3),
                        covs=[[1, 1], [2, 1], [1, 2]] + ([[2, 2]] if T or m[0] == "1" else []),
                        nrand=100 if T else 20)
                      for m in ("1fsv", "1fsvj", "2fsv", "2fsvj")],
    "C28": lambda T: [U(f"rewrites{i}", "polys.rewrites", n=80 if T else 30, order=7 if T else 6)
                      for i in range(6 if T else 4)],
    "C15": lambda T: [U(f"{m}-{i}", "scalars.returns", model=m, order=n, covs=c, points=k, first=i, derivs=DERIVS[m])
                      for m in ("1fsv", "1fsvj", "2fsv", "2fsvj")
                      for i, k, n, c in ((0, 3, 2, C2), (3, 3, 3, C2[:1])) + (
                          ((6, 4, 4 if m[0] == "1" else 3, C3), (10, 10, 3, C2)) if T else ())]
    + [U(f"{m}-wide", "scalars.returns", model=m, order=2, covs=C2[:2], points=12 if T else 3, first=50, derivs=DERIVS[m])
       for m in ("1fsv", "1fsvj", "2fsv", "2fsvj")]
    + [U("variance", "scalars.variance", order=3, points=12 if T else 4),
       U("variance-wide", "scalars.variance", order=3, points=12 if T else 3, first=50),
       U("svcj-wide", "scalars.svcj", order=2, points=10 if T else 3, first=50)]
    + [U(f"svcj{i}", "scalars.svcj", order=n, points=k, first=i)
       for i, k, n in ((0, 2, 2), (2, 2, 2), (4, 1, 3)) + (((5, 8, 3), (13, 2, 4)) if T else ())],
    "C32": lambda T: [U(f"{m}-{i}", "scalars.on_path", model=m, order=n, corder=n, njumps=js, points=k, first=i)
                      for m in ("srjd", "svvj", "svij", "svcj")
                      for i, k, n, js in ((0, 2, 2, [0, 1, 2, 3]), (2, 2, 2, [0, 1, 2, 3]), (4, 1, 3, [2]), (5, 1, 3, [0, 1]), (16, 2, 2, [4, 5, 7]),
                                       (50, 8 if T else 2, 2, [0, 1, 2, 3]))
                      + (((6, 4, 3, [0, 1, 2, 3]), (10, 1, 4, [2])) if T else ())],
    "C29": lambda T: [U(f"{m}{i or ''}", "sessions.sessions", about=m, num=300 if T else 24, depth=40 if T else 26)
                      for m in ("1fsv", "1fsvj", "2fsv", "2fsvj", "srjd", "svvj", "svij", "svcj", "svcj2") for i in range(2 if T else 1)]
    + [U(f"tour-{m}", "sessions.tours", about=m, num=30)
       for m in ("1fsv", "1fsvj", "2fsv", "2fsvj", "srjd", "svvj", "svij", "svcj", "svcj2") if T]
    + [U(f"tour-{m}", "sessions.tours", about=m, num=20 if T else 3 if m[:4] == "svvj" else 1)
       for m in ("1fsv+1fsvj+2fsv+2fsvj", "srjd+svcj", "svvj+svij+svcj2", "svij+1fsv+srjd")],
    "C30": lambda T: [U(m, "sims.sims", models=[m], consts=400 if T else 40, tapes=(100 if m[:2] == "sv" else 300) if T else (10 if m[:2] == "sv" else 20)) for m in
                      ("1fsv", "1fsv_iid", "1fsvj", "2fsv", "2fsvj", "srjd", "svvj", "svij", "svcj")],
    "C31": lambda T: [U("refusals", "api.refusals", reach=4 if T else 2),
                      U("foreign", "api.foreign", n=200 if T else 26)],
    "C33": lambda T: [U(f"canon{i}", "api.canon", part=i, parts=7, deep=T) for i in range(7)]
    + [U("derived", "api.canon_derived", order=5 if T else 3)],
    "C05": lambda T: [A("cir", "cir_stationary", 90 if T else 60, points=3),
                      U("laws", "replay.laws", module="AJDLaws", cfg="AJDLawsDeep")],
    "C06": lambda T: [A("ito", "ito_one_factor", ["orders", 3, 9 if T else 8]),
                      A("ito-high", "ito_one_factor",
                        [[9, 0, 0], [0, 9, 0], [0, 0, 10], [4, 4, 0], [0, 4, 4], [4, 0, 4], [2, 4, 2],
                         [7, 1, 0], [1, 7, 0], [5, 5, 0], [4, 4, 4], [2, 6, 2]] + ([[12, 0, 0], [0, 12, 0], [0, 0, 12], [6, 0, 6], [3, 3, 6], [1, 10, 0]] if T else []))],
    "C07": lambda T: [A("ito", "ito_two_factor", ["orders", 5, 6 if T else 5]),
                      A("ito-high", "ito_two_factor",
                        [[6, 0, 0, 0, 0], [0, 0, 0, 0, 8], [0, 7, 0, 0, 0], [0, 0, 0, 7, 0], [0, 0, 6, 0, 0],
                         [2, 0, 2, 0, 2], [0, 3, 0, 3, 0], [3, 0, 3, 0, 0], [0, 2, 2, 0, 2]])]
    + [A("all", "ito_two_all", 5 if T else 4, [1, 0, 2, 0, 2] if T else [1, 0, 1, 0, 2]),
       A("all2", "ito_two_all", 2, [0, 0, 0, 0, 2])],
    "C08": lambda T: [A("cpp", "cpp", 16, dict(mcpp=26 if T else 22, mcpp_original=22 if T else 20, cmcpp=24 if T else 21), points=3),
                      A("norm", "norm", 80 if T else 50, points=3)],
    "C09": lambda T: fsv_units("C09", T),
    "C10": lambda T: fsv_units("C10", T),
    "C11": four("1fsvj", 8, 8, 4, 9, 9, 6, [(1, 4), (4, 1), (2, 3), (3, 2), (3, 3)]),
    "C12": four("2fsv", 5, 5, 4, 6, 6, 5, [(1, 4), (4, 1), (2, 3), (3, 2)]),
    "C13": four("2fsvj", 5, 5, 4, 6, 6, 5, [(1, 4), (4, 1), (2, 3), (3, 2)]),
    "C16": lambda T: [A("iez", "srjd_jumps", 14, [20, 24, 27] if T else [17, 20, 23, 24], [18, 21] if T else [17, 18]),
                      A("joint", "srjd_joint", ["orders", 2, 11 if T else 9], 11 if T else 9)],
    "C17": lambda T: [A("cond", "srjd_cond", 9 if T else 8)],
    "C18": lambda T: [A("stat", "srjd_stationary", 11 if T else 9)],
    "C19": lambda T: [A(f"path{j}", "srjd_path", 10 if T else 8, j) for j in range(6)] + [A("path8", "srjd_path", 6 if T else 5, 8), A("path14", "srjd_path", 5 if T else 4, 14)]
    + [A(f"pathie{j}", "srjd_path_ie", 10 if T else 8, j) for j in range(4)] + [A("pathie6", "srjd_path_ie", 6 if T else 5, 6), A("pathie12", "srjd_path_ie", 5 if T else 4, 12)],
    "C20": lambda T: [A(f"path{j}", "ito_path", ["orders", 3, 8 if T else 7], j) for j in range(4)] + [A(f"path{j}", "ito_path", ["orders", 3, 6 if T else 5], j) for j in (4, 6)]
    + [A("path12", "ito_path", ["orders", 3, 4 if T else 3], 12)]
    + [A("high", "ito_path", [[6, 0, 0], [0, 6, 0], [0, 0, 8], [2, 2, 2], [0, 4, 2], [3, 3, 0], [1, 5, 0]], 2)],
    "C21": lambda T: [A("jumps", "svcj_jumps", ["orders", 3, 9 if T else 8]),
                      A("joint", "svcj_joint", ["orders", 6, 6 if T else 5])],
    "C22": lambda T: [A("cond", "svcj_cond", 4, 4), A("mom5", "svcj_cond", 5, -1), A("cmom5", "svcj_cond", -1, 5)] + ([A("mom6", "svcj_cond", 6, -1, points=1), A("cmom6", "svcj_cond", -1, 6, points=1)] if T else []),
    "C23": lambda T: [A("mom5", "svcj_stationary", 5, -1), A("cmom5", "svcj_stationary", -1, 5)]
    + ([A("mom6", "svcj_stationary", 6, -1, points=1), A("cmom6", "svcj_stationary", -1, 6, points=1)] if T else []),
    "C27": lambda T: [A("cond", "fsv_cond", 11 if T else 9)],
}
for _pid, _m in (("C24", "svvj"), ("C25", "svij"), ("C26", "svcj")):
    UNITS[_pid] = (lambda m: lambda T: [A(f"path{j}", "path_returns", m, 7 if T else 6, 8 if T else 7, j)
                                        for j in (0, 1, 2, 3)]
                           + [A(f"path{j}", "path_returns", m, 7 if T else 5, 7 if T else 6, j) for j in (4, 5)]
                           + [A("path7", "path_returns", m, 5 if T else 4, 5 if T else 4, 7),
                              A("path13", "path_returns", m, 4 if T else 3, 4 if T else 3, 13)])(_m)
