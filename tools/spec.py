#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; the outputs are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
V = "src/finoptions/vanillaoptions.py"
B = "src/finoptions/base.py"
A = "src/finoptions/basic_american_options/__init__.py"
T = "src/finoptions/binomial_tree_options/__init__.py"
S3 = "src/finoptions/spread_options/bitree3d.py"
SA = "src/finoptions/spread_options/spreadapprox.py"
H = "src/finoptions/heston_nandi_options/__init__.py"
HG = "src/finoptions/heston_nandi_options/hnGARCH.py"
M = "src/finoptions/monte_carlo_options/__init__.py"
MI = "src/finoptions/monte_carlo_options/mc_innovations.py"
MP = "src/finoptions/monte_carlo_options/mc_paths.py"
MY = "src/finoptions/monte_carlo_options/mc_payoffs.py"


def prop(id, title, statement, text, why, files, mech, technique, note, over=("inputs",), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=list(files),
                  mech=mech, technique=technique, note=note, observe=list(observe)))


prop(
    "C01", "European vanilla prices equal the generalized Black-Scholes formula",
    "For all S, K, t, sigma > 0 and any r and b, call() and put() of the Black-Scholes options (and of Black 76, where b = 0 and S is the futures price) equal the generalized Black-Scholes-Merton values up to the accuracy of the published normal approximation (1.2e-7 of the discounted notional). "
    "Call minus put equals S e^((b-r)t) - K e^(-rt) to rounding, prices stay inside their no-arbitrage bounds, move monotonically in K, S and sigma, and scale with (S, K). "
    "Positional and keyword construction and float, int or numpy scalar arguments give the same price.",
    "S 0.01..1e5, K up to 20 standard deviations or a factor e^3 away, t 0.002..10, sigma 0.03..2, r -0.05..0.25, b in {r, 0, r - q, anything -0.2..0.3}",
    "The tests price one contract per class (plus one K sweep): they cannot tell a formula from one that is wrong for b != r, deep in or out of the money, r <= 0 or int arguments.",
    [V, B], [("GBSOption.call/put", V), ("_CND polynomial", B), ("Black76Option, BlackScholesOption constructors", V)],
    "property-based testing against the closed form, parity, bounds and monotonicity (Hypothesis)",
    "Random search over the stated ranges against an independent closed form using scipy's exact normal distribution, plus model-free relations.",
)
prop(
    "C02", "Analytic Greeks of European vanilla options are the exact derivatives",
    "For every European vanilla contract (Black-Scholes and Black 76), call and put, the analytic delta, gamma, vega, theta (per year of calendar time), rho (with b != 0 the carry moves with the rate, with b = 0 it stays), lambda and cost-of-carry sensitivity equal the partial derivatives of the closed form. "
    "greeks() returns exactly these under delta, theta, vega, rho, lambda, gamma, CofC, and every method without arguments means the call.",
    "the ranges of C01, all seven Greeks, call and put, by method and through greeks()",
    "The tests check each Greek at one point, call or put; sign errors for puts, for b = 0 vs b != 0 or for r != b pass.",
    [V], [("GBSOption.delta/theta/vega/rho/lamb/gamma/c_of_c/greeks", V)],
    "property-based testing against closed-form derivatives (Hypothesis)",
    "Random search; oracle is an independent closed form; tolerances follow from the documented normal approximation.",
)
prop(
    "C03", "Finite-difference Greeks are the derivatives of the class's own price",
    "For every option class with numerical Greeks (vanilla with method='fdm', Miltersen-Schwartz, American approximations, one- and two-asset lattices, spread approximation), delta, gamma, vega, rho and theta (minus the derivative in time to maturity) equal the derivative of that class's own call or put price wherever the price is smooth, one value per asset or volatility where there are several. "
    "Lambda is delta times asset price over option price, and greeks() returns the same values as the single methods under delta, theta, vega, rho, lambda, gamma (vega and gamma are the call's).",
    "every class, call and put, Greek by Greek, parameters in each model's domain with t >= 0.1 and asset prices from 1e-4 to 1e5; points where three step sizes disagree are not judged",
    "The tests compare FDM Greeks with stored numbers at one point for a few classes; differentiating the wrong parameter, the wrong option side or the wrong asset elsewhere is invisible.",
    [B, V, A, T, S3, SA], [("GreeksFDM._make_partial_der", B), ("Black76Option / MiltersenSchwartzOption greeks", V), ("GreeksFDM3D", S3), ("RollGeskeWhaley greeks", A)],
    "metamorphic property-based testing: numerical derivative of freshly built objects' prices (Hypothesis)",
    "Random search; oracle is a fourth-order difference quotient of the class's own price used only where three step sizes agree.",
)
prop(
    "C04", "Implied volatility inverts the option price",
    "For every Black-Scholes, Black 76 and Roll-Geske-Whaley contract, volatility(price) returns the volatility at which the option has that price, for calls and puts and for arrays of prices and parameters (volatilities 0.06 to 1.1 there), wherever the price depends on volatility. "
    "verbose=True returns the solver's result holding the same root, and an option that already has a sigma is warned about and its sigma ignored.",
    "volatilities 0.04..1.5, strikes to 2.5 standard deviations, r -0.03..0.2, any carry; arrays of 2 to 5 contracts with any subset of parameters varying; cases whose vega*sigma is below 2e-4 (arrays 2e-3) of the notional are out of domain",
    "The tests invert one price per class.",
    [B, V, A], [("Option._volatility", B), ("GBSOption.volatility", V), ("RollGeskeWhaleyOption.volatility", A)],
    "round-trip property-based testing (Hypothesis)",
    "Random search; round trip price -> volatility -> price with tolerance from the price's accuracy divided by vega.",
)
prop(
    "C05", "Arrays of parameters give the prices and Greeks of each contract",
    "For the Black-Scholes, Black 76 and Miltersen-Schwartz options, passing any non-empty subset of the parameters as equally long numpy arrays (integer strikes included) yields, in order, exactly what the same class returns contract by contract for scalars: call, put, every analytic Greek, greeks(), and the finite-difference Greeks (Miltersen-Schwartz vega as one row per contract). Arrays of one row, one column or a whole table combine to the table of all contracts, for prices, analytic Greeks and implied volatilities.",
    "1 to 8 contracts (2 to 8 for Miltersen-Schwartz), every subset of parameters, all methods, call and put, mixed zero and non-zero carries; grids of 2-4 by 2-5 contracts",
    "The tests vary K only, for a subset of the Greeks.",
    [V, B], [("numpy broadcasting in GBSOption and MiltersenSchwartzOption", V), ("GreeksFDM", B)],
    "differential property-based testing: vectorised against scalar evaluation (Hypothesis)",
    "Random search; the oracle is the same class on scalars, whose correctness C01, C02, C03 and C06 decide.",
)
prop(
    "C06", "Miltersen-Schwartz prices integrate the model's variance and covariance",
    "For every Miltersen-Schwartz commodity contract with positive volatilities, mean reversions and a positive definite correlation matrix and t <= T, call() and put() equal the Gaussian formula with the variance of the log futures price and its covariance with the bond integrated over [0, t]. "
    "Call minus put is the bond price times (convexity-adjusted futures minus strike), prices scale with (FT, K) and with the bond price, and with deterministic carry and rates they are Black 76 prices. delta, lambda, gamma, theta and the three vegas are the derivatives of that model price.",
    "t 0.02..3, T - t 0..3, volatilities and mean reversions 0.1..4, correlations -0.9..0.9, strikes to 2 standard deviations",
    "One parameter set is tested: an error in any of the cross terms at another sign or size of a correlation, or for t = T, passes.",
    [V], [("MiltersenSchwartzOption._calc_price / call / put", V)],
    "property-based testing against numerical integration of the model (Hypothesis)",
    "Random search; the oracle integrates instantaneous variances with Gauss-Legendre quadrature and does not use the closed-form integrals.",
)
prop(
    "C07", "Barone-Adesi-Whaley values follow the quadratic approximation",
    "For every American contract with r >= 0, call() and put() return the quadratic approximation at its critical price (solved to 3e-6 of the notional), the exercise value beyond it, and the European value for calls with b >= r. "
    "Values are never below the European price or the exercise value, and every price is obtained in finite time.",
    "r 0..0.25, b above -0.25, t 0.01..6, sigma 0.06..1.2, S 0.1..1e4, strikes to 4 standard deviations",
    "The tests price two contracts; the Newton search for the critical price has to converge for all of them.",
    [A], [("BAWAmericanApproxOption call/put and critical price search", A)],
    "property-based testing against a bracketed solution of the published equations (Hypothesis)",
    "Random search; the oracle solves for the critical price by bracketing instead of Newton's method.",
)
prop(
    "C08", "Bjerksund-Stensland 1993 values and triggers follow the flat-boundary formula",
    "For every American contract with r > 0, call() and put() return OptionPrice and TriggerPrice of the 1993 flat-boundary formula: the exercise value at or beyond the trigger, the European value with trigger NaN when b >= r. "
    "The put is the call with S and K exchanged, rate r - b and carry -b, trigger included.",
    "r 0.004..0.25, b above -0.2, t 0.01..5, sigma 0.1..1.2, strikes to 3 standard deviations; where carry drifts below -2 sigma / sqrt(t) the published trigger is undefined and only the put-call transformation is judged",
    "The tests price one call and one put.",
    [A], [("BSAmericanApproxOption call/put, _phi", A)],
    "property-based testing against the published formula and its put-call transformation (Hypothesis)",
    "Random search; tolerance accounts for the amplification of the polynomial normal approximation by powers of S.",
)
prop(
    "C09", "Roll-Geske-Whaley calls value the right to exercise before the dividend",
    "For every American call on a stock with one known dividend D at td < t and r > 0, call() equals the Roll-Geske-Whaley value up to 2e-6 of S + K: the European call on the stock less the dividend's present value if D <= K(1 - e^(-r(t-td))), else the compound value at the critical ex-dividend price. "
    "is_call_optimal() says exactly which of the two applies.",
    "t 0.05..3, td 5 to 95 % of t, sigma 0.08..0.9, r 0.002..0.2, strikes to 2 standard deviations, dividends below and above the threshold",
    "One contract is tested; the bivariate normal's sign cases and the critical price bisection are reached at one point only.",
    [A, B], [("RollGeskeWhaleyOption.call / is_call_optimal", A), ("_CBND", B)],
    "property-based testing against quadrature of the bivariate normal and bracketed critical prices (Hypothesis)",
    "Random search; oracle uses Plackett quadrature for the bivariate normal and Brent's method.",
)
prop(
    "C10", "European lattice prices are expectations over the lattice's terminal law",
    "For every European contract and number of steps, the CRR, Jarrow-Rudd, Tian and trinomial options return the discounted expectation of the payoff over that model's published terminal distribution (up, down and middle factors and probabilities). "
    "Call minus put is the lattice's discounted forward minus the discounted strike; european with 5 steps is the default.",
    "n 1..40, t to 8, sigma 0.05..1.2, r -0.03..0.2, carries that keep the probabilities inside (0, 1), float/int/numpy arguments, positional or keyword",
    "The tests price one contract with n = 5 per class.",
    [T], [("_calc_price of the four classes", T)],
    "property-based testing against a closed-form expectation without backward induction (Hypothesis)",
    "Random search; oracle: binomial probabilities (trinomial: convolution), no tree recursion.",
)
prop(
    "C11", "American lattice prices solve optimal stopping on the lattice",
    "For every American contract and number of steps, the CRR, Jarrow-Rudd, Tian and trinomial options return the value of optimal exercise on that model's lattice, at every node the larger of exercise and discounted continuation. "
    "They are never below the same lattice's European price or the exercise value, and equal the European price for calls with b >= r >= 0 (except Jarrow-Rudd's, which is no exact martingale).",
    "n 1..30, t to 6, the parameter ranges of C10, calls and puts, with carries below the rate so that calls are exercised too",
    "One American contract with n = 5 per class is tested, mostly puts.",
    [T], [("_calc_price, _euro, _amer", T)],
    "property-based testing against dynamic programming, with dominance relations (Hypothesis)",
    "Random search; the oracle is a vectorised dynamic program written from the published lattice.",
)
prop(
    "C12", "Option trees and their plots show every node at its place with its value",
    "For every lattice option, call and put, European and American, tree=True returns the full matrix of node values (column = time step, highest asset price first; binomial upper triangular, trinomial centred), zero outside the tree, whose first node is the price. "
    "plot() draws exactly these nodes at (step, net up-moves), each labelled with its own value to the requested digits, and passes figure options on.",
    "n 1..14 for matrices and 1..7 for plots, all classes and styles",
    "The tests compare one 5-step matrix per class and only check that plotting does not raise.",
    [T], [("_reshape of both tree shapes", T), ("BiTreePlotter / TriTreePlotter", T), ("plot()", T)],
    "property-based testing of matrices against dynamic programming, and of drawn figures by inspecting the axes (Hypothesis)",
    "Random search; plots are rendered with the Agg backend and their annotations read back.",
)
prop(
    "C13", "Lattice prices converge to continuous-time prices",
    "With 20 to 240 steps, every one-asset lattice option is within a discretisation error of order volatility/n of the continuous-time value: the closed form for European contracts, a fine independent lattice for American ones.",
    "n 20..90 and 120..240, t 0.05..2, sigma 0.1..0.6, r 0..0.15, b -0.1..0.2, calls and puts",
    "No test uses more than a few steps, so a lattice with a wrong drift, volatility or discounting per step that happens to match stored numbers at n = 5 is not caught.",
    [T], [("u, d, p and Df of the four classes", T)],
    "differential property-based testing against the continuous-time limit (Hypothesis)",
    "Random search; tolerance 0.13 to 0.18 * notional * volatility terms / n, calibrated so that correct lattices use at most about 60 % of it.",
)
prop(
    "C14", "European two-asset lattice options equal expectations over the joint law",
    "For all nine payoffs (spread, maximum, minimum, dual strike, reverse dual strike, portfolio, exchange, relative performance, product), calls and puts, any quantities Q1, Q2, correlation and number of steps, the European price is the discounted expectation of the payoff over Rubinstein's two-asset terminal law; the named maximum, minimum and spread classes are payoffs 2, 3 and 1. tree=True returns a matrix whose first node is the price. "
    "Maximum plus minimum is the sum of the two single options, equal strikes make the dual-strike call the maximum call, an exchange is a spread at strike zero, and spread and portfolio satisfy put-call parity.",
    "n 1..9 (a few to 28), t 0.05..3, sigma 0.05..0.8, correlation -0.95..0.95, r -0.02..0.2, carries -0.1..0.2 (one in six far beyond: prices 1e-4..1e6, t to 15, sigma 0.02..1.5, correlation to +-1, quantities 0.01..100), zero and negative spread strikes, positional or keyword, defaults given or omitted",
    "The tests price payoff 1 and the named classes at one point with Q1 = Q2 = 1 and one correlation.",
    [S3], [("BionomialSpreadAllTypes._calc_price and _payoff", S3), ("BionomialMax/Min/SpreadOption", S3)],
    "property-based testing against the joint terminal expectation and static relations (Hypothesis)",
    "Random search; the oracle sums over binomial weights, no backward induction.",
)
prop(
    "C15", "American two-asset lattice options solve optimal stopping on the lattice",
    "For all nine payoffs, calls and puts, any quantities, correlation and number of steps, the American price (generic and named classes) is the value of optimal exercise on Rubinstein's two-asset lattice, at every node the larger of the payoff there and the discounted continuation. "
    "It is never below the European price or the payoff at the current prices, and the first node of tree=True.",
    "as C14",
    "American exercise is tested at one point for two payoffs.",
    [S3], [("BionomialSpreadAllTypes._calc_price", S3)],
    "property-based testing against dynamic programming, with dominance relations (Hypothesis)",
    "Random search; the oracle is a vectorised dynamic program on the published lattice.",
)
prop(
    "C16", "The spread option approximation is Kirk's formula with carry",
    "For every European spread contract with K >= 0, call() and put() equal Kirk's lognormal approximation with Q1 S1 and Q2 S2 carried at b1 and b2, and call minus put is Q1 S1 e^((b1-r)t) - Q2 S2 e^((b2-r)t) - K e^(-rt). "
    "At K = 0 it is Margrabe's exact exchange option, and for small strikes it stays within its known error of the two-asset lattice.",
    "t 0.05..3, volatilities 0.05..0.8, correlation -0.95..0.95, quantities 0.5..3, carries -0.1..0.2",
    "Tested at three futures contracts with b = 0 and Q = 1.",
    [SA, B], [("SpreadApproxOption._calc_price / call / put", SA)],
    "property-based testing against the formula, parity, an exact limit and an independent lattice (Hypothesis)",
    "Random search with three independent oracles.",
)
prop(
    "C17", "Heston-Nandi GARCH prices and Greeks invert the model's characteristic function",
    "For every Heston-Nandi model that is stationary under its pricing law, call() and put() equal the discounted expected payoff under that law started from its stationary variance (3e-7 of S + K), for one to three days also when integrated directly from the GARCH recursion. "
    "delta and gamma are the derivatives of the price, prices obey parity, scale with (S, K), depend on lambda and gamma only through their sum, and with alpha = 0 are Black-Scholes prices.",
    "maturities 1..24 days, strikes to 2 standard deviations, persistence to 0.97, stationary volatility 8 to 80 % a year, gamma -50..450, r 0..0.001 a day",
    "One parameter set is tested.",
    [H], [("HestonNandiOption.call/put/delta/gamma", H), ("_fstarHN and integration", H)],
    "property-based testing against an independent Fourier inversion and direct integration (Hypothesis)",
    "Random search; two independent oracles for short maturities, one beyond.",
)
prop(
    "C18", "Simulated Heston-Nandi series follow the GARCH recursion of their innovations",
    "hngarch_sim returns exactly n returns that follow the Heston-Nandi recursion in the given innovations, started from the stationary variance and carried through the start innovations, of which none is returned. "
    "Arguments left out take their defaults (lamb -0.5, beta 0.1, gamma 0, rf 0, n 500). Given innovations determine the series and are not modified; without them the series is driven by independent standard normals, fresh on every call.",
    "all stationary parameters, 1..25 given innovations after 0..8 start innovations, and random series of up to 1500 values after up to 300 random start values",
    "The tests simulate one series from one parameter set.",
    [H, HG], [("hngarch_sim", H)],
    "property-based testing against a reference recursion; statistical tests of recovered innovations (Hypothesis)",
    "Random search; the statistical part has a false-alarm probability below 1e-11 per case and uses seeded generators.",
)
prop(
    "C19", "Heston-Nandi estimation reports its likelihood and never worsens it",
    "For every return series and admissible starting values, hngarch_fit returns an estimate inside the parameter bounds (gamma zero if symmetric) whose likelihood is no worse than the starting values', with value = the negative log-likelihood at the start and h, z, persistence and sigma2 those of the estimate under the GARCH recursion. "
    "A fit that ran to convergence is not beaten by large steps of one coordinate, the data is not modified, and trace only adds printing.",
    "series of 5..100 values simulated from random stationary models, symmetric and asymmetric fits, default, partial and far-off starting values, iteration limits 1, 3, 20 or none",
    "The tests fit one series.",
    [H, HG], [("hngarch_fit, _llhHNGarch", H)],
    "property-based testing against an independent likelihood and recursion (Hypothesis)",
    "Random search; optimality is judged only by coarse one-coordinate moves (a local optimiser may stop in a local optimum).",
)
prop(
    "C20", "The Monte Carlo engine averages user-defined payoffs loop by loop",
    "For any user-defined innovation, path and payoff classes, MonteCarloOption draws fresh innovations in every loop, adds their mirror images if antithetic, then standardizes the whole matrix if asked, and returns for each loop the mean of the call or put payoffs of exactly those paths; innovations passed as eps are used as given and not modified. "
    "trace prints one numbered line per loop with its value and the average so far, and a loop whose mean is infinite is warned about and returned as (innovations, path, payoffs).",
    "1..5 loops, 1..6 paths and steps, all flag combinations, built-in and custom paths and payoffs, repeated calls on one object, an infinite payoff injected in any loop",
    "The tests run one configuration without antithetic or standardization combinations and never an infinite loop.",
    [M], [("MonteCarloOption._sim_mc", M)], "model-based property testing with scripted innovations and injected infinite payoffs (Hypothesis)",
    "Random search against a plain-loop model of the engine; user-defined classes record what they receive.", over=("inputs", "configurations", "histories"),
)
prop(
    "C21", "Monte Carlo innovations, paths and payoffs meet their definitions",
    "Normal Sobol innovations are finite normal quantiles of the requested number and dimension: unscrambled they are the sequence's points 1..n, scrambled they are stratified in every dimension and fresh at every draw, also when the generator yields an exact 0 or 1. "
    "Wiener paths are (b - sigma^2/2) dt + sigma sqrt(dt) innovation; plain vanilla and arithmetic Asian payoffs are the discounted payoffs on the end and on the average of S times the exponential of the cumulated path, path by path.",
    "1..300 paths, 1..40 dimensions, injected generator faults, 1..12 x 1..12 innovation matrices with arbitrary contracts",
    "The tests use one size and one contract, and cannot make the generator return the 1-in-2^30 zeros.",
    [MI, MP, MY], [("NormalSobolInnovations.sample_innovation", MI), ("WienerPath.generate_path", MP), ("PlainVanillaPayoff, ArithmeticAsianPayoff", MY)],
    "property-based testing against definitions, with injected generator faults (Hypothesis)",
    "Random search; stratification is the defining property of scrambled Sobol points, so no statistics are needed.", over=("inputs", "fault_sequences"),
)
prop(
    "C22", "Monte Carlo prices estimate the value of the contract",
    "With scrambled Sobol innovations and Wiener paths, the mean over the loops estimates the European value (closed form) and the arithmetic Asian value (geometric control variate) within two and a half plain Monte Carlo standard errors, for calls and puts, with or without antithetic paths and standardization, for any number of steps. "
    "Loops are independent of each other.",
    "1024..4096 paths, 1..16 steps, 1..4 loops, volatility of the whole term 0.05..0.6, strikes to 1.5 standard deviations",
    "One price at one seed cannot show a bias that appears for other maturities, carries or step counts.",
    [M, MI, MP, MY], [("MonteCarloOption.call/put", M), ("NormalSobolInnovations", MI), ("WienerPath", MP)],
    "statistical property-based testing with quasi-random error margins (Hypothesis)",
    "Random search; quasi-random errors stay below half a standard error, so the 2.5 margin has no practical false-alarm rate.",
)
prop(
    "C23", "An option always prices its current parameters, whatever happened before",
    "After any history of set_param, copy, pricing, Greeks, implied volatility, trees and reports on several live objects, every option class answers exactly like a newly built option with the same parameters, and get_params returns them. "
    "Copies are independent of their originals, changing a returned parameter dictionary or failing to set an unknown parameter changes nothing, and no query changes a parameter or an array passed in.",
    "histories of 2..9 operations on up to four objects of all 16 classes, arrays for the vanilla classes",
    "The tests build an object, query it once and throw it away; stale caches, shared state or queries that disturb parameters need a sequence.",
    [B, V, A, T, S3, SA], [("Option.set_param / get_params / Derivative.copy", B), ("__init__ of every class", V), ("set_param overrides", S3)],
    "stateful model-based testing against a dict of parameters and fresh objects (Hypothesis)",
    "Random histories, shrunk to a minimal sequence; the model is a dictionary per object.", over=("histories", "inputs"),
)
prop(
    "C24", "Prices do not depend on the unit of money or time",
    "For every option class, multiplying all amounts of money (asset prices, strikes, dividend) by a constant multiplies the price by it (product options by its square, relative performance options not at all), and expressing the same contract in another unit of time (t, and rates, carries, variances and mean reversions per unit) leaves the price unchanged. "
    "For two-asset options a quantity Q of an asset at price S is worth the same as one unit at Q times S.",
    "all 16 classes, money factors e^-5..e^5, time factors e^-2.5..e^4",
    "Each test uses one currency unit and years.",
    [V, A, T, S3, SA], [("every pricing formula", V)],
    "metamorphic property-based testing (Hypothesis)",
    "Random search; no model needed, tolerance is rounding except for the published convergence criteria of the critical price searches.",
)
prop(
    "C25", "The American option models agree on the price of the same contract",
    "For every American contract with 0.005 <= r <= 0.2 and t <= 3, the Barone-Adesi-Whaley value is within that approximation's known error (about one per cent of the notional times its volatility) of the value of optimal exercise. "
    "The Bjerksund-Stensland value never exceeds the value of optimal exercise and is within its known error of it for rates of at least 0.03 and moderate carry.",
    "r 0.005..0.2, b -0.12..0.2 and at least -r, t 0.02..3, sigma 0.1..0.8, strikes to 2.5 standard deviations, calls and puts",
    "The tests compare each model with itself only.",
    [A], [("BAWAmericanApproxOption", A), ("BSAmericanApproxOption", A)],
    "differential property-based testing against a 300-step lattice with control variate (Hypothesis)",
    "Random search; tolerances are the approximations' published accuracy, so small errors are left to C07 and C08.",
)
prop(
    "C26", "Reports state the option's current parameters and prices",
    "summary() lists every parameter with its current value in the order of get_params, then call and put prices as the pricing methods return them rounded to 6 decimals (arrays: 2), labelled with the exercise style for lattices, with triggers for Bjerksund-Stensland and the exercise decision for Roll-Geske-Whaley; arrays of more than six values are abbreviated to their ends. "
    "summary(printer=False) and str() return exactly the text that summary() prints, repr() lists the same parameter values after the class name, and an option without volatility is reported without a price.",
    "all 16 classes, random contracts, after set_param, arrays of 2..14 contracts, missing volatility",
    "No test looks at a report's numbers.",
    [B, A, T, S3], [("Option.summary / __str__ / __repr__ / _check_string", B), ("summary overrides", A), ("summary override", T), ("summary override", S3)],
    "property-based testing by parsing reports back (Hypothesis)",
    "Random search; the text is parsed, so layout is judged only as far as names, order, labels and numbers.",
)
prop(
    "C27", "What cannot be priced is refused, and a refusal changes nothing",
    "An option without volatility raises for every price and Greek (ValueError naming sigma for the vanilla options) and works like a new one once sigma is set; the American approximations raise TypeError for arrays of several values in the constructor and in set_param; every other class refuses an array of contracts or prices each of them, never one number or wrong ones; finite-difference rho with a non-zero carry raises ValueError. "
    "Unknown parameter names, unknown exercise styles of one-asset lattices, unknown payoff numbers and missing strikes raise or give NaN, never a number. "
    "A refused set_param leaves parameters and prices as they were.",
    "all classes the request applies to, all analytics, call and put, float and integer arrays in each parameter",
    "The tests contain a handful of pytest.raises at fixed arguments.",
    [V, A, B, T, S3], [("_check_sigma", V), ("_check_array", B), ("RollGeskeWhaley/BAW/BS93 __init__", A), ("set_param", B)],
    "property-based testing of misuse with state comparison (Hypothesis)",
    "Random search over the misuses listed in the statement.", over=("inputs", "histories"),
)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"] or ["return values of the public methods"], "hook_needed": None},
            }) + "\n")
    checks = [{
        "property": p["id"],
        "quick_cmd": f"/opt/venv/bin/python run_check.py {p['id']}",
        "thorough_cmd": f"/opt/venv/bin/python run_check.py {p['id']}",
        "technique": p["technique"], "level": "exploration", "level_note": p["note"],
    } for p in P]
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -m vlib.deps", "checks": checks, "not_applicable": [],
                   "notes": "VERIF_TIER=quick|thorough selects the number of cases; VERIF_SEED the random seed; run_check.py ID --replay FILE re-runs one case."}, f, indent=1)
        f.write("\n")


main()
