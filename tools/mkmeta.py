"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = "src/finoptions/vanillaoptions.py"
B = "src/finoptions/base.py"
A = "src/finoptions/basic_american_options/__init__.py"
T = "src/finoptions/binomial_tree_options/__init__.py"
H = "src/finoptions/heston_nandi_options/__init__.py"
M = "src/finoptions/monte_carlo_options/__init__.py"
MI = "src/finoptions/monte_carlo_options/mc_innovations.py"
MP = "src/finoptions/monte_carlo_options/mc_paths.py"
MY = "src/finoptions/monte_carlo_options/mc_payoffs.py"
S3 = "src/finoptions/spread_options/bitree3d.py"
SK = "src/finoptions/spread_options/spreadapprox.py"

P = []


def p(id, title, statement, over, text, why, files, mech, state=(), technique="", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, technique=technique, note=note))


p("C01", "European vanilla prices equal the lognormal expectation",
  "For every market (underlying or futures price, strike, maturity, rate, cost of carry of either sign, volatility) the call and the put of the generalized Black-Scholes, Black-Scholes and Black-76 options equal the discounted lognormal expectation of their payoff, to the 1e-7 accuracy of the normal distribution used. "
  "Call minus put equals the discounted forward minus the discounted strike, and a Black-76 option is the one with zero cost of carry.",
  ["inputs", "histories"], "all valid scalar parameters (t > 0, sigma > 0, S, K > 0; deep in and out of the money, tiny and huge prices, negative rates and carry, ints), and every way the object came to hold them (constructor, set_param, copy, earlier use)",
  "The tests price about three markets, all with b or r small and K near S; a sign, a discounting exponent or a branch of the distribution function that agrees there can be wrong elsewhere.",
  [V, B], [("closed form", f"{V}:GBSOption.call/put"), ("polynomial normal distribution", f"{B}:_Base._CND"), ("futures convention b=0", f"{V}:Black76Option.__init__")],
  technique="online price oracle: every call()/put() result compared with an independent exact expectation, and put-call parity between the two results")

p("C02", "Commodity option prices follow the Miltersen-Schwartz formula",
  "For every parameter set the call and put of the Miltersen-Schwartz commodity option equal the model's closed form built from its spot, convenience-yield and forward-rate volatilities, mean-reversion speeds and correlations, for an option maturity no later than the delivery date. "
  "Call minus put equals the zero bond price times the convexity-adjusted futures price minus strike.",
  ["inputs", "histories"], "all 13 parameters including vanishing and large mean reversion, all correlation signs, t = T and t < T, and every construction route",
  "One parameter set is tested; every integral of the variance has an own combination of exponentials which one sample cannot separate.",
  [V], [("total variance and covariance terms", f"{V}:MiltersenSchwartzOption.__init__"), ("closed form", f"{V}:MiltersenSchwartzOption.call/put")],
  technique="online price oracle against an independent evaluation of the model by quadrature of its volatility functions, plus parity")

p("C03", "Analytic greeks are the exact sensitivities of the price",
  "For every market, delta, gamma, theta, vega, rho, lambda and the cost-of-carry sensitivity of the vanilla options are the partial derivatives of the price for the requested side (theta with decay sign; rho moving the cost of carry with the rate unless it is zero; lambda equal to delta times price of the underlying over the option price). "
  "The greeks report holds exactly those numbers for the side asked for.",
  ["inputs", "histories"], "all valid scalar markets, both sides, b = 0 and b != 0, every construction route and call order",
  "The tests compare a handful of numbers at one market; terms that vanish or coincide there (b = r, b = 0, K = S) hide a wrong sign or factor.",
  [V], [("analytic formulas", f"{V}:GBSOption.delta/theta/vega/rho/lamb/gamma/c_of_c"), ("report", f"{V}:GBSOption.greeks")],
  technique="online oracle: each reported greek compared with the exact partial derivative of the exact price")

p("C04", "Finite-difference greeks of the vanilla options agree with the true ones",
  "Asked for by finite differences, delta, theta, vega, gamma, lambda of the Black-Scholes family and of the Miltersen-Schwartz option, and rho where the cost of carry is zero, agree with the true sensitivities of that option's price to the accuracy of the differencing; rho is refused with an error where it would not be valid. "
  "Computing them leaves the option unchanged.",
  ["inputs", "histories"], "markets with sigma*sqrt(t) of at least 0.1, both sides, every option class offering the method, maturities above the time step",
  "Finite differences are tested at a couple of markets on the generalized option only, so a wrong parameter name, sign or side in one class is invisible.",
  [B, V], [("derivative of price wrt one parameter", f"{B}:GreeksFDM._make_partial_der"), ("method dispatch", f"{V}:GBSOption.delta..lamb(method='fdm')"), ("Miltersen-Schwartz greeks", f"{V}:MiltersenSchwartzOption.delta..gamma")],
  technique="online oracle: finite-difference greeks compared with exact derivatives; state of the option compared before and after")

p("C05", "Implied volatility inverts the price",
  "For every option offering implied volatility and every attainable price, the volatility returned reproduces that price when the option is repriced with it, and equals the volatility that produced the price wherever the price determines it; this holds for calls and puts, for scalars and, within its convergence range, for arrays. "
  "The verbose form returns the solver's full result holding the same root, and the option's own volatility is left unchanged.",
  ["inputs", "histories"], "scalar markets of the vanilla options and of Roll-Geske-Whaley with price above a resolvable time value, arrays of any length with moneyness within half a standard deviation, verbose or not, sigma preset or not",
  "The tests invert one price of one option per class; which side, bracket end or parameter is used cannot be told from those.",
  [B, V, A], [("root finding on price difference", f"{B}:Option._volatility"), ("vanilla entry", f"{V}:GBSOption.volatility"), ("RGW entry", f"{A}:RollGeskeWhaleyOption.volatility")],
  technique="round-trip oracle over recorded (price, implied volatility, reprice) histories")

p("C06", "Array inputs give the elementwise scalar results",
  "Passing numpy arrays for any subset of the parameters of a vanilla option yields, for prices and every greek, the array of what the scalar option gives element by element, with the shape of the input. "
  "Single-asset American approximations, which do not support arrays, reject them with an error instead of returning numbers.",
  ["inputs"], "every parameter and combination of parameters as an array, lengths 2 to 50, integer and float dtypes, mixed signs and zeros of the cost of carry, both sides, analytic and finite-difference greeks",
  "Arrays are tested for one or two parameters of one market; branches on a parameter (zero cost of carry) or aliasing show only when elements differ in that parameter.",
  [V, B, A], [("vectorised formulas", f"{V}:GBSOption.*"), ("array rejection", f"{A}:RollGeskeWhaleyOption.__init__")],
  technique="differential oracle: vectorised outcome vs. elementwise scalar outcomes of the same code")

p("C07", "Options behave as values: set_param and copy histories leave no trace",
  "After any sequence of parameter changes, copies, pricings, greek computations and reports, an option prices and reports exactly as one newly made with the parameters it reports; changing a copy never changes the original or the reverse. "
  "Queries change neither the parameters nor the arguments passed in, and give the same answer when repeated; a query cut short by an error, or asked from several threads at once, leaves no trace, and a returned result belongs to the caller: it neither changes later nor affects later answers when changed.",
  ["histories", "inputs"], "random operation sequences of length up to 14 over two live objects and their copies, for all 16 option classes, scalar and (vanilla) array parameters, type/payoff/step-count changes included",
  "Tests construct, call once and drop; derived quantities cached at construction, aliased arrays and parameters lost on change only show in histories.",
  [B, V, A, T, S3, SK], [("re-initialisation on change", f"{B}:Option.set_param, {V}:Black76Option.set_param"), ("deep copy", f"{B}:Derivative.copy"), ("parameter reports", "get_params of every class")],
  state=[("stored and derived parameters", "every constructor")],
  technique="history checker: recorded operation sequences compared step by step with a fresh object built from the model state")

p("C08", "Roll-Geske-Whaley prices the American call on a one-dividend stock",
  "For every stock with one known cash dividend, the price equals the Roll-Geske-Whaley value: the European call on the stock net of the dividend when early exercise is not optimal, otherwise the compound-option formula at the critical stock price. "
  "The optimality test reports true exactly when the dividend exceeds the interest saved on the strike over the time left after it; the price is never below either early-exercise alternative available to the holder.",
  ["inputs", "histories"], "all valid S, K, 0 < td < t, r >= 0, dividends from zero to a large part of S, sigma 0.05 to 1, away from the exact optimality threshold",
  "Two parameter sets are tested; the bivariate normal alone has five branches.",
  [A, B], [("critical price search and compound formula", f"{A}:RollGeskeWhaleyOption.call"), ("optimality", f"{A}:RollGeskeWhaleyOption.is_call_optimal"), ("bivariate normal distribution", f"{B}:_Base._CBND")],
  technique="online price oracle: exact bivariate-normal reference with an independently solved critical price, and dominance over exercise policies")

p("C09", "The BAW approximation returns the quadratic approximation and terminates",
  "For every market with positive rate, call and put of the Barone-Adesi-Whaley option terminate and equal the quadratic approximation at its critical price: the European value plus the early exercise premium before it, the exercise value beyond it, and the European value for calls whose cost of carry is at least the rate. "
  "Prices are never below the European value or the exercise value.",
  ["inputs", "histories"], "S, K, t to 30 years, r from 1e-4 to 0.3, b of either sign and beyond r, sigma 0.01 to 3, both sides",
  "The test is two prices at one market; the Newton search behind each price diverges or cycles only in corners (two such defects were found and repaired).",
  [A], [("critical price searches", f"{A}:BAWAmericanApproxOption._bawKc/_bawKp"), ("price branches", f"{A}:BAWAmericanApproxOption.call/put")],
  technique="online price oracle with bracketed critical price, early-exercise bound monitors, CPU-time watchdog for the search")

p("C10", "The Bjerksund-Stensland price and trigger follow the 1993 approximation",
  "For every market the published approximation covers, call and put of the Bjerksund-Stensland option equal the 1993 flat-boundary approximation and report its trigger price; puts are priced by the put-call transformation. "
  "Calls whose cost of carry is at least the rate are European and report no trigger; at and beyond the trigger the price is the exercise value, and before it never more than the option can pay.",
  ["inputs", "histories"], "S, K, t, r, b of either sign and beyond r, sigma from 0.08, excluding parameter sets where the published formula cancels catastrophically or its trigger leaves its own limits (recorded findings)",
  "One market is tested; six phi terms with opposite signs can hide a wrong term where it is small.",
  [A], [("flat boundary formula", f"{A}:BSAmericanApproxOption._BSAmericanCallApprox/_bsPhi"), ("put transformation", f"{A}:BSAmericanApproxOption.put")],
  technique="online price and trigger oracle with cancellation-aware tolerance, plus exercise-bound monitors")

p("C11", "Tree options price by exact backward induction of their lattice",
  "For every market, step count and exercise style, the CRR, JR, Tian and trinomial options return the value of backward induction on the lattice their model defines: European ones the risk-neutral expectation over the terminal nodes, American ones the optimal stopping value with the exercise value taken wherever it is larger. "
  "Call and put of the European kind satisfy parity on the lattice.",
  ["inputs", "histories"], "all four lattices, n from 1 to 200, both exercise styles, both sides, carry of either sign",
  "Tests pin a few prices with n about 5; node indexing, exercise values per level and probabilities only separate over many n and markets.",
  [T], [("lattice parameters", f"{T}:*_calc_price"), ("backward induction", f"{T}:CRRBinomialTreeOption._euro/_amer, TrinomialTreeOption._euro/_amer")],
  technique="online price oracle: independent lattice induction; European prices also by explicit terminal distribution")

p("C12", "The reported tree holds every node value of the induction",
  "Asked for the tree, every tree option returns a matrix whose entries are exactly the option values of the lattice nodes at each step, its root equal to the plain price, and padding outside the lattice; plotting a tree annotates exactly those node values at the requested number of digits without changing the option. "
  "The array a two-asset lattice option returns for its tree has the plain price at its root.",
  ["inputs", "configurations"], "all tree classes, n from 1 to 40, both styles and sides, plot digits",
  "One small matrix is pinned per class; the plotters are not tested at all.",
  [T, S3], [("tree recording", f"{T}:_euro/_amer(tree=True), TrinomialTreeOption._reshape"), ("plotters", f"{T}:BiTreePlotter.plot, TriTreePlotter.plot"), ("two-asset working array", f"{S3}:BionomialSpreadAllTypes._calc_price")],
  technique="node-by-node oracle over the returned trees; event monitor on the plotting backend recording every annotation")

p("C13", "Greeks of American, tree and spread options differentiate their own price",
  "For every option priced numerically, each finite-difference greek is the derivative of that option's own price with respect to the parameter it names and for the side asked for, theta with decay sign and lambda equal to delta times spot over price. "
  "The greeks report holds the same numbers, greeks undefined for two-asset options are absent or refused, and computing greeks leaves the option unchanged.",
  ["inputs", "histories"], "all American, tree and spread option classes, both sides, inputs where the price is smooth on the scale of the difference step (at a kink, the quotient of observed prices over the differencing steps counts)",
  "A few numbers of single markets are pinned; a wrong side, parameter or factor elsewhere goes unseen.",
  [B, A, T, S3, SK], [("finite differences", f"{B}:GreeksFDM"), ("delegation", "delta/theta/vega/rho/lamb/gamma/greeks of every class")],
  technique="consistency oracle: reported greek vs. an independent difference quotient of observed prices; before/after state monitor")

p("C14", "Two-asset lattice options pay what their name says",
  "For every market the two-asset binomial option returns, for each of its nine payoffs (spread, maximum, minimum, dual strike, reverse dual strike, portfolio, exchange, relative performance, product), the value of backward induction on the correlated two-asset lattice, European or American, call or put where the payoff has sides (an exchange call receives the second and delivers the first asset, its put the reverse). "
  "The named spread, maximum and minimum classes price exactly as the general class with that payoff.",
  ["inputs", "histories", "configurations"], "all nine payoffs, both styles, both sides, correlations of either sign up to 0.99, unequal carries, volatilities and quantities, n from 1 to 30",
  "The tests cover one market with Q1 = Q2 = 1 and few payoffs; one payoff was wrong (repaired).",
  [S3], [("lattice", f"{S3}:BionomialSpreadAllTypes._calc_price"), ("payoffs", f"{S3}:BionomialSpreadAllTypes._payoff"), ("named classes", f"{S3}:BionomialMaxOption, BionomialMinOption, BionomialSpreadOption")],
  technique="online price oracle: independent two-asset induction with named payoffs; differential check of the named classes")

p("C15", "The spread approximation follows Kirk's formula",
  "For every pair of futures, the spread approximation option returns Kirk's value for call and put on the difference of the quantity-weighted forward prices, each grown at its own cost of carry. "
  "Call minus put equals the discounted expected spread minus strike, and with zero strike the value is the exact exchange-option value.",
  ["inputs", "histories"], "all parameters with positive forward plus strike, correlations of either sign, unequal quantities, carries and volatilities",
  "One market is tested with equal quantities.",
  [SK], [("effective volatility and formula", f"{SK}:SpreadApproxOption.__init__/call/put")],
  technique="online price oracle against Kirk's formula and against Margrabe's exact value at zero strike, plus parity")

p("C16", "The Monte Carlo engine prices the given paths, payoff and innovations",
  "Whatever innovation, path and payoff classes are plugged in, each simulation returns one price estimate per loop that is finite and equals the mean of the discounted payoffs over exactly the paths generated from that loop's innovations, antithetic (each path paired with its mirror image) and standardized (zero mean, unit deviation) when asked. "
  "The built-in Sobol normals, Wiener paths, vanilla and arithmetic Asian payoffs follow their definitions, estimates converge to the true price, and the trace shows the running average.",
  ["inputs", "fault_sequences", "configurations"], "loops, path counts and lengths, antithetic/standardization/trace switches, built-in and recording user classes, scrambled and injected Sobol samples containing 0 and 1 boundary points",
  "The tests run fixed innovations read from files; sampler boundary points and switch combinations are not reached.",
  [M, MI, MP, MY], [("simulation loop", f"{M}:MonteCarloOption._sim_mc"), ("sampler with resampling", f"{MI}:NormalSobolInnovations"), ("paths", f"{MP}:WienerPath"), ("payoffs", f"{MY}:PlainVanillaPayoff, ArithmeticAsianPayoff")],
  technique="recording plug-in classes log every loop; offline checker recomputes each loop's estimate; injected sampler faults; convergence oracle")

p("C17", "Heston-Nandi prices equal the model's conditional expectation",
  "For every stationary parameter set the Heston-Nandi call equals the discounted risk-neutral expectation of its payoff under the GARCH dynamics started at the long-run variance, and the put follows by parity. "
  "Prices lie within the no-arbitrage bounds and approach Black-Scholes with the same variance as the volatility of variance vanishes.",
  ["inputs", "histories"], "stationary alpha, beta, gamma, omega, lambda; maturities 1 to 400 steps; moneyness within several standard deviations; daily rates",
  "One parameter set is tested.",
  [H], [("characteristic function recursion", f"{H}:_fHN"), ("price integrals", f"{H}:HestonNandiOption.call/put")],
  technique="online price oracle: independent recursion and inversion integral in a different form; bounds and limit monitors; simulation cross-check on the thorough tier")

p("C18", "Heston-Nandi delta and gamma are derivatives of its price",
  "For every stationary parameter set delta is the derivative of the Heston-Nandi price with respect to the spot for the side asked for (put delta is call delta minus one) and gamma its second derivative, the same for both sides. ",
  ["inputs"], "as for the prices, options with resolvable gamma",
  "One parameter set is tested.",
  [H], [("delta and gamma integrals", f"{H}:HestonNandiOption.delta/gamma, _fdeltaHN, _fgammaHN")],
  technique="online oracle: independent delta/gamma integrals and difference quotients of observed prices")

p("C19", "Heston-Nandi simulation and fitting follow the GARCH recursion",
  "Simulated series follow the model's return and variance recursion exactly for the innovations drawn, with the burn-in dropped; the fit evaluates the model's likelihood, never reports a worse likelihood than its starting point, returns parameters that reproduce it, and leaves the asymmetry parameter at zero when symmetric. ",
  ["inputs", "histories"], "stationary parameters, series lengths, burn-ins, given and random innovations, symmetric and asymmetric fits, option arguments of the optimiser",
  "One simulated file and one fit are pinned; the symmetric fit did not run at all (repaired).",
  [H], [("simulation", f"{H}:hngarch_sim"), ("likelihood filter", f"{H}:_llhHNGarch"), ("fit", f"{H}:hngarch_fit")],
  technique="trace checker: simulated series re-filtered by an independent recursion; optimiser evaluations recomputed independently")

p("C20", "Reports name the option and state its parameters and prices",
  "The summary and string forms of every option name that option's own class and model, list every parameter with its current value under its own name, and show the call and put price the option would return (with the optimality or trigger information where the model has it). "
  "Without a volatility the vanilla report still lists the parameters and leaves prices out.",
  ["inputs", "histories"], "all classes, scalar and (vanilla) array parameters short and long, after parameter changes, with and without volatility, printed or returned",
  "No test reads a report; three classes named the wrong model (repaired).",
  [B, A, T, S3], [("summary", f"{B}:Option.summary and overrides"), ("repr", f"{B}:Option.__repr__")],
  technique="report parser as monitor: every printed number traced back to parameters and observed prices")

p("C21", "Pricing without a volatility is refused, not guessed",
  "A Black-Scholes family option made without a volatility, or whose volatility was taken away again, refuses every price and every greek, of either side and by either method, with a value error instead of returning a number, whatever was done with it before. "
  "It keeps answering implied volatility requests and reports meanwhile, and prices exactly like a new option once a volatility is set.",
  ["inputs", "histories"], "every public query on the three vanilla classes, with scalar and array parameters, in random sequences of setting and unsetting the volatility, copying and querying",
  "One query on one class is tested; stale derived quantities of an earlier volatility show only in sequences.",
  [V, B], [("sigma check", f"{V}:GBSOption._check_sigma"), ("derived quantities only with a volatility", f"{V}:GBSOption.__init__")],
  technique="history monitor on refused operations: expected exception or the fresh object's result at every step")

p("C22", "Independent models agree where theory says they must",
  "Across the library, models that must coincide do: lattices converge to the closed form with European exercise and to one another with American exercise; American values are at least European and exercise values; the American approximations stay close to the American lattice and not above it beyond their known error; a two-asset lattice converges to the exact exchange value; Monte Carlo and Heston-Nandi approach Black-Scholes in their limits. "
  "Prices are monotone in spot, strike and volatility and scale with the currency unit.",
  ["inputs", "configurations"], "markets in the common domain of each pair of models, both sides",
  "Each model is tested alone against numbers from the same R package, so a shared convention error is invisible.",
  [V, A, T, S3, SK, H], [("all pricing entry points", "call()/put() of every class")],
  technique="metamorphic and cross-model relations evaluated over observed prices only (no reference model)")

p("C23", "Queries leave the world as they found it, and do not depend on it",
  "Outside the object it is asked of, a request has no effect: constructing, pricing, greeks, implied volatility, reports, plots, Monte Carlo runs, simulations and fits, whether answered, refused or cut short by an error, print nothing unless a report or a trace is asked for, write no file, and leave numpy's random state, error handling and print options, Python's random state, the warning filters, matplotlib's settings, the environment, the working directory and the threads of the process as they were. "
  "Nor do they depend on that state: the same request gives the same answer in another one. Only a simulation of a GARCH series without given innovations draws from numpy's global random stream: seeding that stream determines the series, and two simulations in a row differ.",
  ["inputs", "histories", "configurations"], "every public request of every class and the GARCH functions, answered, refused, or failing in a plug-in, repeated under different random and error states",
  "The tests look at returned numbers only; a stray print, a leaked error state or a reseeded global generator passes them all.",
  [V, B, A, T, S3, SK, H, "src/finoptions/monte_carlo_options/__init__.py"], [("all public requests", "constructors and public methods of every class"), ("simulation draws", f"{H}:hngarch_sim"), ("plots", f"{T}:CRRBinomialTreeOption.plot")],
  technique="snapshots of process-global state compared around every observed request; the request repeated in a perturbed world")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for q in P:
            assert len(q["title"]) <= 80, q["id"]
            d = {
                "id": q["id"], "title": q["title"], "statement": q["statement"].strip(),
                "quantifier": {"over": q["over"], "text": q["text"]},
                "why_tests_cant": q["why"],
                "anchors": {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]]},
            }
            if q["state"]:
                d["anchors"]["state"] = [{"name": n, "where": w} for n, w in q["state"]]
            fh.write(json.dumps(d) + "\n")
    checks, na = [], []
    for q in P:
        if not os.path.exists(os.path.join(HERE, "props", q["id"].lower() + ".py")):
            na.append({"property": q["id"], "reason": "check not built yet"})
            continue
        checks.append({
            "property": q["id"],
            "quick_cmd": f"/opt/venv/bin/python -B run.py {q['id']} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python -B run.py {q['id']} --tier thorough",
            "technique": "runtime monitoring: " + q["technique"],
            "level": "exploration",
            "level_note": q["note"] or "real code run under generated workloads; the verdict covers the executions observed, counted in the evidence file",
        })
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B tools/selftest.py",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo: monitors attach from outside (subclasses, wrappers, the Monte Carlo plug-in interface, the matplotlib backend). Exit 2 = inconclusive.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()
