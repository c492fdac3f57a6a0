#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept in git so the list can be edited in one readable place."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, (id, statement)
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": hook}})

prop("C01", "Restoring a saved bump brings back every price exactly",
     "After any sequence of market-data bumps recorded in one save area and then restored, raw market data, the prefetched pricing context, the analytic pricer and the Monte-Carlo pricer all give exactly the prices, spots, curves, forwards and volatilities they gave before the sequence. A bump of something that is not present changes nothing, and a restore from a cleared save area changes nothing.",
     ["histories", "inputs"], "all portfolios, markets and sequences of saved bumps, of different items or repeatedly of one, with restore, clear and re-use of the save area",
     "Unit tests restore one hand-picked bump of one option; they do not reach portfolios that share an underlying or a curve, sequences of several bumps, or re-use of a save area.",
     ["src/risk/marketdata.rs", "src/risk/cache.rs", "src/risk/dependencies.rs", "src/models/blackdiffusion.rs", "src/pricers/selfpricer.rs", "src/pricers/montecarlo.rs"],
     [("save before bump", "src/risk/marketdata.rs apply_bump"), ("refetch and save of derived data", "src/risk/cache.rs PricingContextPrefetch::refetch"), ("saved simulated paths", "src/models/blackdiffusion.rs")],
     ["Pricer::price before and after", "PricingContext queries before and after"], None)

prop("C02", "Prefetched pricing always equals pricing straight from market data",
     "For any instrument set whose dependencies were collected, and after any history of bumps, restores and spot-date moves, every quantity obtained from the prefetched pricing context equals the one computed directly from the market data it holds. The analytic pricer's price equals the weighted sum of the instruments priced directly against that market data.",
     ["histories", "inputs"], "all portfolios, markets and interleavings of bumps, restores of histories recorded without gaps, and spot-date moves",
     "Tests compare fixed numbers after one bump at a time on one option; staleness only shows for particular combinations of shared curves and bump orders.",
     ["src/risk/cache.rs", "src/risk/marketdata.rs", "src/risk/dependencies.rs", "src/pricers/selfpricer.rs"],
     [("prefetch of forwards and vols", "src/risk/cache.rs walk_dependencies"), ("selective refetch after a bump", "src/risk/cache.rs Bumpable for PricingContextPrefetch")],
     ["PricingContextPrefetch vs MarketData queries", "SelfPricer::price"], None)

prop("C03", "Bumping equals rebuilding the market with the bumped input",
     "Applying a spot, dividend, borrow, volatility or yield bump gives the same prices, forwards and volatilities as a fresh market in which only that one input has been replaced by its bumped value. Everything not named by the bump is unchanged, and the bump reports whether it found anything to change.",
     ["inputs", "histories"], "all markets, instruments and bumps of every kind and size, including bumps of names that are absent",
     "Tests pin one number per bump type at one size on a market whose dividend yields and most rates are zero, so wrong scaling or a wrong target is invisible.",
     ["src/data/bump.rs", "src/data/bumpspot.rs", "src/data/bumpdivs.rs", "src/data/bumpyield.rs", "src/data/bumpvol.rs", "src/data/curves.rs", "src/data/divstream.rs", "src/data/voldecorators.rs", "src/risk/marketdata.rs"],
     [("bump application", "src/risk/marketdata.rs Bumpable for MarketData"), ("bump decorators", "src/data/curves.rs, src/data/voldecorators.rs, src/data/divstream.rs")],
     ["MarketData queries and prices after a bump"], None)

prop("C04", "Risk reports are finite differences of the price and disturb nothing",
     "A delta-gamma report contains, for each underlying of the portfolio and for nothing else, the central first and second finite differences of the price under a relative spot bump of the requested size, and a vega-volga report does the same for volatility bumps. After generating any reports in any order the pricer gives exactly the price it gave before and the save area is empty.",
     ["inputs", "configurations"], "all portfolios, markets, bump sizes and orders of report generation",
     "Tests pin one option at one or two bump sizes; multi-underlying portfolios, repeated use of one pricer and arbitrary sizes are not reached.",
     ["src/risk/deltagamma.rs", "src/risk/vegavolga.rs", "src/risk/mod.rs", "src/data/bumpvol.rs"],
     [("up and down bumps", "src/risk/deltagamma.rs generate, src/risk/vegavolga.rs generate"), ("opposite bump", "src/data/bumpvol.rs opposite")],
     ["report results", "Pricer::price after the report"], None)

prop("C05", "A time-forward report equals valuing afresh at the later date",
     "The time-forward price equals the price of the portfolio valued afresh on the later spot date, with spots moved according to the chosen dynamics and with every fixing that falls from the old spot date up to but excluding the new one applied at the forward or spot that the dynamics imply. Theta is that price minus the original one, sub-reports equal the same reports run on the fresh valuation, and the original pricer is unaffected.",
     ["inputs", "histories"], "all portfolios, markets, forward dates (including across strike and expiry dates), dynamics and nested sub-reports",
     "Tests move one day with no fixing in between; jumps over strike or expiry dates and portfolios with repeated fixing dates are not exercised.",
     ["src/risk/timebumped.rs", "src/risk/bumptime.rs", "src/risk/marketdata.rs", "src/pricers/selfpricer.rs", "src/instruments/mod.rs"],
     [("fixings implied by the move", "src/risk/bumptime.rs update_instruments"), ("spot-date bump", "src/risk/marketdata.rs bump_spot_date")],
     ["TimeBumpedReport price, theta, subreports", "Pricer::price afterwards"], None)

prop("C06", "Monte-Carlo prices are the averaged discounted payoff of the paths",
     "For the same paths, the Monte-Carlo price of an option is exactly the mean over paths of its payoff, discounted from its payment date to its settlement date, and with many paths it agrees with the analytic price within sampling error. The simulated paths have the market forward as mean and the surface's variance, correlated inputs have the requested correlations, and a bumped model equals a model built on the bumped market with the same random numbers.",
     ["inputs", "configurations", "histories"], "all options, markets, path counts, sub-step settings, correlation matrices and bumps",
     "The existing Monte-Carlo test is random and is skipped as flaky; it covers one option with one setting and a loose tolerance.",
     ["src/models/blackdiffusion.rs", "src/models/mod.rs", "src/pricers/montecarlo.rs", "src/instruments/options.rs"],
     [("path construction", "src/models/blackdiffusion.rs fetch_path, fetch_paths"), ("flow evaluation", "src/models/blackdiffusion.rs evaluate_flows"), ("payoffs", "src/instruments/options.rs mc_price")],
     ["MonteCarloPricer::price", "fetch_paths output"], None)

prop("C07", "Everything survives a JSON round trip with identical behaviour",
     "Writing any instrument, currency, market data, fixing table, calendar, date rule, curve, dividend stream, volatility surface, interpolator, pricer factory, report generator or report to JSON and reading it back gives an object that answers every query identically and that writes the same JSON again.",
     ["inputs"], "all serialisable objects of every type and nesting, including decorated (bumped) ones that support reading",
     "Tests round-trip one sample per type and mostly compare the text or one value; combinations, empty collections and extreme numbers are not reached.",
     ["src/core/factories.rs", "src/core/dedup.rs", "src/data/curves.rs", "src/data/divstream.rs", "src/data/volsurface.rs", "src/data/voldecorators.rs", "src/data/fixings.rs", "src/dates/calendar.rs", "src/dates/rules.rs", "src/dates/mod.rs", "src/math/interpolation.rs", "src/instruments/mod.rs", "src/risk/mod.rs"],
     [("tagged serialisation", "src/core/factories.rs Qrc/Qbox"), ("type registries", "get_registry in each module")],
     ["queries and serialised text before and after"], None)

prop("C08", "Shared components in JSON resolve by id under each sharing policy",
     "When instruments are written or read under a sharing policy, inlining writes every component in full, write-once writes each component in full at its first occurrence and by id afterwards, and the supplied-components policy writes only ids and fails if one is unknown. Reading under the matching policy and components gives an instrument that prices identically, components with equal ids resolve to the supplied or first-read one, and the policy in force never leaks into later or concurrent reads and writes.",
     ["inputs", "configurations", "histories"], "all instrument graphs with shared components, all policies for currencies and instruments, and sequences of reads and writes including failing ones",
     "Tests check three fixed texts for one option on one basket; deeper graphs, repeated ids, mixed policies and state after a failed read are not reached.",
     ["src/core/dedup.rs", "src/instruments/mod.rs", "src/instruments/assets.rs", "src/facade/mod.rs"],
     [("policy state", "src/core/dedup.rs Dedup::with"), ("write by id", "src/core/dedup.rs serialize_with_dedup"), ("read by id", "src/core/dedup.rs string_or_struct, src/instruments/mod.rs string_or_struct_polymorphic")],
     ["serialised text", "deserialised instruments"], None)

prop("C09", "Bad input gives an error, never a panic, crash or hang",
     "Whatever text is passed to the loading entry points - truncated, mutated, mistyped, non-UTF-8 or arbitrary - the library returns either a usable object or an error with a message. A library call returns errors as values rather than panicking, the C interface never lets a failure cross the boundary, and a failed load leaves later loads working.",
     ["inputs", "fault_sequences"], "all byte strings and all structural mutations of valid inputs for every loading entry point, pricing of whatever was accepted, and library calls given infinite or undefined numbers",
     "Tests feed well-formed samples; malformed dates, missing pieces, wrong handle types and mutated numbers are not enumerated.",
     ["src/facade/mod.rs", "src/facade/c_interface.rs", "src/facade/handle.rs", "src/dates/mod.rs", "src/math/interpolation.rs", "src/core/factories.rs"],
     [("loading", "src/facade/mod.rs *_from_json"), ("date parsing", "src/dates/mod.rs FromStr"), ("error handles", "src/facade/handle.rs")],
     ["facade results", "qm_is_error / qm_error_string"], None)

prop("C10", "The C interface gives the library's results and keeps handles apart",
     "Any sequence of C calls creating, cloning, using and freeing handles gives the same objects, reports and comparison outcomes as the equivalent library calls. Using or freeing one handle never affects another, an error handle reports an error with its message wherever it is passed on, and a handle of the wrong kind gives an error handle.",
     ["histories", "inputs"], "all sequences of C-interface calls over generated instruments, markets and reports",
     "The C tests run one straight-line script with every handle correct; clones, reordering, frees and error propagation across calls are not explored.",
     ["src/facade/c_interface.rs", "src/facade/handle.rs", "src/facade/mod.rs"],
     [("handle conversion", "src/facade/handle.rs"), ("calls", "src/facade/c_interface.rs")],
     ["returned handles, report JSON, error strings"], None)

prop("C11", "A European option is worth the Black formula on the market's own forward",
     "Before expiry a European option is worth the discount factor from payment date to settlement date times the Black value of its forward and strike (both displaced where the dividend assumption requires it) at the surface's variance from valuation or strike date to expiry. Its value lies between discounted intrinsic and the forward or strike bound, obeys put-call parity, falls for calls and rises for puts with strike, is monotone in volatility, and is zero after expiry.",
     ["inputs"], "all markets, strikes including zero, strike fractions, expiries including today, times of day and valuation dates",
     "Tests pin a dozen prices; no test varies rates, dividends, smile, day fraction and displacement together.",
     ["src/instruments/options.rs", "src/math/optionpricing.rs", "src/data/volsurface.rs", "src/data/forward.rs"],
     [("analytic price", "src/instruments/options.rs VanillaOption::prices"), ("Black formula", "src/math/optionpricing.rs")],
     ["Priceable::price and prices"], None)

prop("C12", "Baskets price, fix and depend as the weighted sum of their components",
     "At every date a basket is worth the weighted sum of its components' own prices, however deeply baskets are nested and whatever the sign of the weights. A basket depends on exactly what its components depend on, and fixing it gives the weighted sum of the fixed components, or reports no change when no component is affected.",
     ["inputs", "programs"], "all nested baskets of assets, bonds and options, all dates and fixing tables",
     "Tests use two equities with fixed weights on one date.",
     ["src/instruments/basket.rs", "src/instruments/mod.rs"],
     [("weighted sum", "src/instruments/basket.rs prices"), ("fixing in place", "src/instruments/mod.rs fix_all")],
     ["Priceable::prices", "Instrument::fix"], None)

prop("C13", "Fixing an option turns it into exactly the outcome its terms promise",
     "Once its expiry is fixed a cash-settled option becomes its intrinsic payment, a physically-settled one becomes strike against underlying, and one that is out of the money becomes nothing, while a fixed strike date turns a forward-starting option into the spot-starting one with that strike. The pieces are worth what the option's payoff is worth on its payment date, missing past fixings are an error, and unrelated or future fixings change nothing.",
     ["inputs", "histories"], "all options, settlement styles, fixing tables with past, present and future entries, and orders of fixing strike and expiry",
     "Tests fix one forward-starting option once, at one level.",
     ["src/instruments/options.rs", "src/instruments/bonds.rs", "src/instruments/mod.rs", "src/data/fixings.rs"],
     [("fix", "src/instruments/options.rs fix"), ("payment", "src/instruments/bonds.rs ZeroCoupon")],
     ["Instrument::fix results and their prices"], None)

prop("C14", "Fixing tables answer exactly what was recorded",
     "A fixing table returns the recorded value for a recorded instrument and time, an error for an unrecorded time before the date up to which fixings are known, and nothing for an unrecorded time from that date on. Recording a second value for the same instrument and time is rejected and leaves the table unchanged, and tables built in any order or way from the same records agree.",
     ["histories", "inputs"], "all sequences of construction, insertion and query, over many instruments, dates and times of day",
     "Tests use one small table; duplicate insertion, unknown instruments and boundary dates are checked singly if at all.",
     ["src/data/fixings.rs"],
     [("lookup", "src/data/fixings.rs get, get_optional"), ("insert", "src/data/fixings.rs insert, Fixings::new")],
     ["FixingTable::get and get_optional"], None)

prop("C15", "Equity forwards are cash-and-carry prices after all dividends",
     "The forward on the spot date is the spot, and on a later date it is the spot carried at the financing rate less the borrow cost between settlement dates, less every cash and relative dividend going ex after the spot date up to that date carried from its payment date, and reduced by any dividend yield. The result does not depend on how far ahead the curve was prepared, and is linear in spot for given cash dividends. The last cash dividend date reported for a stream is the ex date of its last dividend paying cash.",
     ["inputs"], "all spots, rate and borrow curves, dividend streams with dividends on, before and after the dates asked, settlement rules and dates",
     "Tests use one dividend stream and check a handful of dates on and around its ex dates.",
     ["src/data/forward.rs", "src/data/divstream.rs", "src/data/curves.rs"],
     [("bootstrap", "src/data/divstream.rs DividendBootstrap"), ("forward", "src/data/forward.rs EquityForward")],
     ["Forward::forward"], None)

prop("C16", "Yield curves discount consistently",
     "The discount factor between two dates is the exponential of the difference of the accumulated rates, is one for equal dates, multiplies along any chain of dates and inverts when the dates are swapped. A curve reproduces its pillar rates over actual days / 365, is linear in rate between pillars, follows its extrapolation choices outside them, and a flat bump of annualised or continuous rate adds exactly that amount at every date.",
     ["inputs"], "all pillar sets, base dates, extrapolation choices, bumps and date pairs",
     "Tests evaluate one five-pillar curve at a few dates.",
     ["src/data/curves.rs", "src/data/bumpyield.rs", "src/math/interpolation.rs"],
     [("discount factor", "src/data/curves.rs RateCurve::df"), ("interpolated rate", "src/data/curves.rs RateCurveAct365"), ("bumps", "src/data/curves.rs AnnualisedFlatBump, ContinuouslyCompoundedFlatBump")],
     ["RateCurve queries"], None)

prop("C17", "Interpolators hit their points and honour each side's extrapolation",
     "An interpolator returns exactly the given value at each point, is linear (or the C2 cubic with the stated end conditions) between points, and left of the first and right of the last point follows the rule chosen for that side: flat, natural continuation, zero, not-a-number or error. Points whose positions are unsorted, repeated or not-a-number, or which are too few, are rejected with an error, and numbers and dates on the axis behave alike.",
     ["inputs", "configurations"], "all point sets, all pairs of extrapolation rules, both interpolation kinds and both axis types",
     "Tests use one or two point sets and mostly the same rule on both sides.",
     ["src/math/interpolation.rs"],
     [("linear", "src/math/interpolation.rs linear_interpolate_extrapolate"), ("cubic", "src/math/interpolation.rs nr_spline, nr_splint"), ("validation", "src/math/interpolation.rs validate_abscissae")],
     ["Interpolate::interpolate"], None)

prop("C18", "Volatility surfaces are consistent in variance, time and strike",
     "On any surface the variance to a date is volatility squared times the surface's volatility time, reproduces the quoted smiles at the quoted dates, interpolates between them in variance along equal moneyness, and gives the same answers one strike at a time or in batches. Forward variance over an interval is the at-the-forward variance to its end less that to its start, shaped by the smile over an equal time from the base date, adds up over adjoining intervals where there is no smile, is the whole variance when the interval starts at or before the base date, and is reported as an error rather than negative.",
     ["inputs"], "all flat and smile surfaces, calendars, base times, dates between, on and beyond the pillars, and strikes",
     "Tests read a few vols off one sample surface; forward variance on smiles, fractional days and batch-versus-single agreement are untested.",
     ["src/data/volsurface.rs", "src/data/volsmile.rs", "src/dates/calendar.rs"],
     [("variance", "src/data/volsurface.rs variances, forward_variances"), ("interpolation in expiry", "src/data/volsurface.rs VolByProbability")],
     ["VolSurface queries"], None)

prop("C19", "Smiles reproduce their quotes and reject unusable ones",
     "A flat smile gives its volatility at every strike; a spline smile gives each quoted volatility at its strike, a smooth cubic between them and the natural continuation outside, in whatever batch of strikes is asked for. Quotes that are not strictly increasing in strike, contain not-a-number or are too few are rejected with an error.",
     ["inputs"], "all quote sets and strike batches",
     "Tests use one smile with five quotes.",
     ["src/data/volsmile.rs", "src/math/interpolation.rs"],
     [("smile", "src/data/volsmile.rs")],
     ["VolSmile::volatilities"], None)

prop("C20", "Curve and surface decorators shift exactly what they claim",
     "An additive volatility bump adds its size at every date and strike down to a floor of zero, a time-scaled bump adds its size over the square root of the floored time, and a replaced surface is flat. Rolling a surface in time keeps volatility by remaining time or keeps total variance less the elapsed part according to the chosen dynamics, sticky-delta moves strikes with the forward, and stacking decorators composes their effects.",
     ["inputs", "programs"], "all base surfaces and curves, all stacks of decorators, dates, fractions of day and strikes",
     "Tests apply one decorator at a time to one flat or sample surface.",
     ["src/data/voldecorators.rs", "src/data/curves.rs", "src/data/volsurface.rs"],
     [("decorators", "src/data/voldecorators.rs"), ("dynamics", "src/data/volsurface.rs VolTimeDynamics, VolForwardDynamics")],
     ["VolSurface queries through the decorator"], None)

prop("C21", "Black prices obey parity, bounds, monotonicity and limits",
     "For every positive forward and discount factor and non-negative strike and volatility, Black call minus put equals discounted forward minus strike, each lies within its no-arbitrage bounds, is monotone and convex in strike, monotone in volatility and homogeneous in forward and strike. The values agree with an independent evaluation of the formula and tend to discounted intrinsic as volatility vanishes.",
     ["inputs"], "all forwards, strikes including zero and at the money, volatilities including zero, and discount factors",
     "Tests check a handful of values.",
     ["src/math/optionpricing.rs"],
     [("formula", "src/math/optionpricing.rs Black76")],
     ["call_price, put_price, cdf"], None)

prop("C22", "Implied volatility inverts the price or fails with an error",
     "If a target price is produced by some volatility in the search range, the solver returns a volatility within tolerance that reprices to the target, leaving the pricer's other market data untouched. If the range does not bracket the target, or there is not exactly one surface to solve for, it returns an error.",
     ["inputs"], "all options, markets, target volatilities, ranges, tolerances",
     "One test solves one option at one target.",
     ["src/solvers/impliedvol.rs", "src/math/brent.rs"],
     [("solver", "src/solvers/impliedvol.rs")],
     ["OneDimensionalSolver::solve"], None)

prop("C23", "The root finder returns a bracketed root or an error",
     "For any continuous function and any bracket whose ends have opposite signs, the root finder returns a point inside the bracket within tolerance of a sign change, evaluating the function only inside the bracket and well within a bisection-like number of steps. Brackets without a sign change, functions that fail and exhausted iteration limits give an error.",
     ["inputs"], "all continuous functions (smooth, kinked, flat, steep), brackets in either order, tolerances and iteration limits",
     "Two tests use two functions.",
     ["src/math/brent.rs"],
     [("search", "src/math/brent.rs zbrent")],
     ["zbrent result and evaluated points"], None)

prop("C24", "Dates convert, compare, add and print consistently",
     "Year-month-day to serial conversion agrees with the proleptic Gregorian calendar over the whole valid range and inverts exactly, day of week, ordering, differences and day additions agree with it, and printing and parsing are inverse. Date-times order by date then time of day, fractional days stay in range, and text that is not a valid calendar date is rejected with an error.",
     ["inputs"], "every valid date, all pairs, all increments and all date-like strings",
     "Tests check a few hundred consecutive days and selected dates.",
     ["src/dates/mod.rs", "src/dates/datetime.rs"],
     [("conversion", "src/dates/mod.rs from_ymd, ymd"), ("text", "src/dates/mod.rs FromStr, Display")],
     ["Date and DateTime operations"], None)

prop("C25", "Business-day counts and steps agree with the calendar's holidays",
     "For every calendar, counting days between two dates equals counting its business days one by one with the stated inclusion of each end, is additive over adjoining intervals and zero when the end is before the start. Stepping n days lands on a business day exactly n business days on (or back), stepping forward then back returns, and slipping leaves business days alone.",
     ["inputs"], "all calendars and holiday sets, date pairs spanning weeks to decades, step counts and slip directions",
     "Tests check a few fixed intervals around one or two holidays.",
     ["src/dates/calendar.rs"],
     [("count", "src/dates/calendar.rs count_business_days"), ("step", "src/dates/calendar.rs step")],
     ["Calendar queries"], None)

prop("C26", "Date rules give the business day their convention names",
     "The null rule returns the date itself, next and previous return the nearest business day on or after or on or before, stepping rules move that many business days from there, and modified following moves forward unless that leaves the month, then back. Results are business days, never move the wrong way and preserve the order of dates.",
     ["inputs"], "all rules, calendars, holiday sets and dates including month and year ends",
     "Tests check a handful of dates per rule.",
     ["src/dates/rules.rs", "src/dates/calendar.rs"],
     [("rules", "src/dates/rules.rs")],
     ["DateRule::apply"], None)

prop("C27", "Volatility time is additive, weighted by holiday and inverted by stepping",
     "Volatility time between two moments is the sum over days of each day's weight times the part of the day covered, divided by the annual basis, so it is additive over adjoining intervals, never negative and increases with the end. Stepping by an amount of volatility time lands on the moment whose volatility time is closest to the one asked for.",
     ["inputs"], "all underlying calendars, holiday weights from zero to one, moments with fractions of a day, and step sizes of both signs",
     "Tests check selected intervals with one weight.",
     ["src/dates/calendar.rs", "src/dates/datetime.rs"],
     [("weighted count", "src/dates/calendar.rs VolatilityCalendar"), ("partial step", "src/dates/calendar.rs step_partial")],
     ["Calendar year fraction, day counts and partial steps"], None)

prop("C28", "Report comparison accepts exactly what is within tolerance",
     "Comparing reports accepts a report against itself and against any copy whose every number differs by less than its stated tolerance, and rejects, naming the difference, any copy in which one number differs by more, an entry or sub-report is missing or added, or the kind of report differs. The outcome does not depend on which side is the expected one.",
     ["inputs"], "all reports of every kind and nesting, all perturbations of one or many numbers including infinite and undefined ones, all tolerances",
     "Tests compare one pair of equal reports and one pair that differ.",
     ["src/risk/mod.rs", "src/risk/deltagamma.rs", "src/risk/vegavolga.rs", "src/risk/timebumped.rs", "src/math/numerics.rs", "src/facade/mod.rs"],
     [("comparison", "validate in each report type"), ("entry point", "src/facade/mod.rs assert_approx_eq_reports")],
     ["assert_approx_eq_reports"], None)

prop("C29", "Declared dependencies suffice to price and drive every risk",
     "Pricing any instrument or portfolio on single-name underlyings asks only for spots, curves, forwards, volatilities and fixings that it declared, up to dates no later than declared, and gives the same price when the market holds nothing else. Conversely every market input whose change moves the price is among the declared ones.",
     ["inputs", "programs"], "all instruments and portfolios on single-name underlyings, with bonds paying no earlier than they settle, markets padded with unrelated data, and perturbations of each market input",
     "Tests list the dependencies of one option; nothing compares declarations with what pricing asks for.",
     ["src/risk/dependencies.rs", "src/instruments/options.rs", "src/instruments/basket.rs", "src/instruments/bonds.rs", "src/instruments/assets.rs"],
     [("collection", "src/risk/dependencies.rs DependencyCollector"), ("declaration", "Instrument::dependencies")],
     ["queries made to a recording context", "prices on trimmed markets"], None)

prop("C30", "Pricing from many threads gives the single-threaded results",
     "Instruments, market data, fixing tables and report generators shared between threads give in every thread exactly the prices, reports and JSON they give when used by one thread alone. A sharing policy chosen while reading or writing in one thread never affects another.",
     ["schedules", "inputs"], "all portfolios and markets shared by several threads that price, bump copies, report, write and read JSON concurrently in generated interleavings",
     "All existing tests are single-threaded per object.",
     ["src/core/dedup.rs", "src/core/factories.rs", "src/facade/mod.rs", "src/risk/marketdata.rs", "src/instruments/mod.rs"],
     [("thread-local policy", "src/core/dedup.rs Dedup::with"), ("shared pointers", "src/core/factories.rs Qrc")],
     ["results per thread vs serial"], None)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
