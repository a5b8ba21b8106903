I = ["inputs"]
def m(*pairs): return [{"name": n, "where": w} for n, w in pairs]

prop("C01", "Dates convert to and from year-month-day by the Gregorian calendar",
 "For every representable date, converting it to year, month and day and back gives the same date, and year, month, day and weekday are those of the Gregorian calendar. Adding days, subtracting days and differencing dates agree with counting calendar days, and date order is chronological order.",
 I, "every day number of the supported 200-year range and every Gregorian (y,m,d) in it",
 "The tests look at a few dozen hand-picked dates; the closed-form arithmetic can be wrong on one day of a leap or century year only.",
 ["src/dates/mod.rs"], m(("closed-form conversion between day numbers and y/m/d", "src/dates/mod.rs"), ("weekday from day number modulo 7", "src/dates/mod.rs")))

prop("C02", "Parsing date text gives the written date or an error, and never panics",
 "Parsing a date text either fails with an error or returns exactly the date written in it; text that does not consist of three numbers separated by hyphens is rejected with an error rather than a panic or some other date. Well-formed ISO year-month-day text of a valid date is accepted, and the text a date prints as parses back to that date.",
 I, "every text up to a bounded length over the characters that can occur in a date, and every valid date written out",
 "The tests parse a handful of well-formed strings; malformed text is untested.",
 ["src/dates/mod.rs"], m(("split on separator and parse components", "src/dates/mod.rs")))

prop("C03", "Calendar stepping and counting agree with day-by-day counting",
 "For every calendar, stepping n business days from a date lands on the date found by walking day by day and counting business days, always on a business day, moving forward or backward as asked. Counting business days from one date to a later one, with a part of each end day, equals the sum of weights found by looking at each day, is zero when the dates are reversed, and gives the year fraction when divided by the basis of the calendar. A volatility calendar gives holidays their stated weight, and a step in it lands on the date whose weighted count is closest to the step.",
 I, "every start date and step, every weekday alignment, and every placement of a bounded number of holidays",
 "Tests use a handful of start dates and one holiday set; errors at the meeting of weekends, holidays and signs of the step are not reached.",
 ["src/dates/calendar.rs"], m(("weekend arithmetic", "src/dates/calendar.rs"), ("binary search over holidays", "src/dates/calendar.rs")))

prop("C04", "Date rules move to the business day their convention names",
 "The next and previous rules return the nearest business day on or after, or on or before, the date; the step rules move that many business days; modified following goes forward unless that leaves the month of the date, when it goes back. A date that is already a good business day is unchanged by the zero-step rules.",
 I, "every date, every holiday placement of bounded size, each rule",
 "Tests check one weekend of one month; month ends, holidays over month ends and years are not covered.",
 ["src/dates/rules.rs", "src/dates/calendar.rs"], m(("delegation to calendar step with slip direction", "src/dates/rules.rs")))

prop("C05", "Dated times order chronologically and give the documented day fraction",
 "Dates with a time of day, and dates with a day fraction, order first by date and then by time within the day, and equality agrees with the order. A time of day on an equity maps to a fixed fraction of the day of that date, so a later time never maps to an earlier fraction.",
 I, "all pairs of dates and times of day",
 "Few pairs are compared in tests and the orderings are relied on indirectly by every sorted fixing and path lookup.",
 ["src/dates/datetime.rs", "src/instruments/assets.rs"], m(("derived orderings", "src/dates/datetime.rs")))

prop("C06", "Linear interpolation follows the chords and its extrapolation policies",
 "A linear interpolator returns the given value at every given point, and between points the value on the straight line joining the neighbours. To the left and to the right it follows the policy chosen for that side (flat, natural, zero, not-a-number or error) independently of the other side, and construction fails for unordered or empty points.",
 I, "all values at the points, all point spacings, all query positions, all pairs of extrapolation policies, up to a bounded number of points",
 "Tests use one curve with one pair of policies; the policies on the two sides are never different.",
 ["src/math/interpolation.rs"], m(("binary search for the enclosing interval", "src/math/interpolation.rs"), ("extrapolation policy", "src/math/interpolation.rs")))

prop("C07", "Cubic splines hit their points and join smoothly",
 "A cubic spline passes through all its points, has continuous first and second derivatives at interior points, has zero curvature at an end extrapolated naturally and zero slope at any other end, and with natural ends reproduces a straight line exactly. Outside its points it follows the extrapolation policy of that side, where natural means continuing the end cubic. Fewer than two points, or points not in increasing order, are an error.",
 I, "all values at the points for bounded numbers of points and spacings, all query positions",
 "The tests compare a few splines against stored numbers; unequal policies on the two sides and a flat left end are not pinned down.",
 ["src/math/interpolation.rs"], m(("tridiagonal solution for second derivatives", "src/math/interpolation.rs")))

prop("C08", "Root finding returns a root inside the bracket or an error",
 "When the function has opposite signs at the two ends of the bracket, root finding returns a point of the bracket at which the function is zero to the tolerance or changes sign within the tolerance, or an error when it runs out of iterations. It fails with an error when the ends do not bracket a root and never evaluates the function outside the bracket.",
 I, "all function values returned at successive evaluations (an adversarial function), all brackets, bounded number of iterations",
 "One test solves one equation; the branch structure depends on every function value.",
 ["src/math/brent.rs", "src/solvers/impliedvol.rs"], m(("bracketing invariant of Brent's method", "src/math/brent.rs")))

prop("C09", "Black option prices obey parity, bounds and the Black formula",
 "For every positive forward, strike and variance and every discount factor, call minus put is the discounted difference of forward and strike, a call is worth at most the discounted forward and a put at most the discounted strike. Call and put equal the Black formula, and the cumulative normal distribution behind it lies in [0,1], is increasing, symmetric and standard.",
 I, "all positive forwards, strikes and variances, and all discount factors, within bounds",
 "Tests compare a few stored prices; parity and bounds are never asserted for general inputs.",
 ["src/math/optionpricing.rs"], m(("Black formula with guarded degenerate cases", "src/math/optionpricing.rs")))

prop("C10", "Discount factors compose and rate bumps shift rates as described",
 "Discount factors from a rate curve compose across an intermediate date, are one for equal dates and invert when the dates are exchanged, and rate times time at a date is the rate at that date times the year fraction from the base date. A bumped curve differs from the unbumped one by exactly the stated shift at every date: relative, annualised or continuously compounded.",
 I, "all curve rates, all query dates in and out of the pillars, all bump sizes",
 "Tests check a few dates of one curve; bumps are checked at single dates.",
 ["src/data/curves.rs", "src/data/bumpyield.rs"], m(("act/365 interpolation", "src/data/curves.rs"), ("bump decorators", "src/data/curves.rs")))

prop("C11", "Dividend sums count exactly the dividends that go ex in the interval",
 "The cash between two dates counts each cash dividend whose ex-date lies in the interval once and no other, with discounting applied to the payment date, and the cash after a date is the part of the total not yet ex. Bumping all dividends scales each cash and relative dividend and the dividend yield by the same factor and changes no dates.",
 I, "all dividend amounts, ex-date and query-date orders, for bounded numbers of dividends",
 "Tests use one stream queried at a few dates.",
 ["src/data/divstream.rs", "src/data/bumpdivs.rs"], m(("cumulative bootstrap searched by date", "src/data/divstream.rs")))

prop("C12", "Equity forwards carry spot for rates, borrow and dividends",
 "The forward today is spot, and at any later date it is the value of holding the asset: spot less the discounted cash dividends gone ex so far, scaled for relative dividends and dividend yield, grown at rates less borrow. Forwards without dividends are proportional to spot, and a later forward never depends on dividends beyond its date.",
 I, "all spots, rates, borrow costs, dividend amounts and query dates for a bounded number of dividends",
 "Tests compare one curve with stored numbers.",
 ["src/data/forward.rs", "src/data/divstream.rs"], m(("bootstrap of dividends", "src/data/divstream.rs"), ("growth factor", "src/data/forward.rs")))

prop("C13", "Fixing lookups return exactly the stored fixing, or the documented absence",
 "Looking up a fixing returns the value stored for exactly that instrument, date and time of day; an absent fixing is an error if it lies before the date to which fixings are known, and otherwise simply unknown. Duplicate fixings or duplicate instruments are rejected on construction.",
 I, "all fixing values, all orders of stored and queried dates and times for bounded tables",
 "Tests look up two or three fixings.",
 ["src/data/fixings.rs"], m(("map from date and time", "src/data/fixings.rs")))

prop("C14", "Variance is vol squared times vol time and is consistent across dates",
 "On every vol surface variance is volatility squared times the volatility time from the base date, a surface built from smiles returns each smile's own volatility at its own date, and between smile dates its volatility follows interpolation in variance at equal moneyness. At-the-forward variance between two dates is the difference of the at-the-forward variances to those dates, so without a smile it is zero over an empty interval and additive over adjoining ones; with one the smile of the interval is added.",
 I, "all volatilities, strikes, forwards and query dates for bounded numbers of smiles",
 "Tests compare stored numbers at a few strikes; forward variance is not tested at all.",
 ["src/data/volsurface.rs", "src/data/volsmile.rs"], m(("interpolation in variance by probability", "src/data/volsurface.rs")))

prop("C15", "Vol surface decorators change vols exactly as their bump says",
 "A parallel bump adds the bump to every volatility, a time-scaled bump adds the bump scaled by the documented function of vol time with its floor, a sticky-delta bump returns the vol of the same moneyness on the unbumped forward, and rolling or constant-expiry evolution re-dates the surface without changing anything else. A zero bump is invisible.",
 I, "all bumps, vols, strikes, dates and forwards",
 "Tests look at single bumps against stored numbers.",
 ["src/data/voldecorators.rs", "src/data/bumpvol.rs"], m(("decorators over a base surface", "src/data/voldecorators.rs")))

prop("C16", "Restoring after bumps leaves market data exactly as it was",
 "After any sequence of bumps (other than moving the date) applied with one saved state, restoring that state makes every spot, curve, dividend, volatility and price query answer as before the bumps. A bump of one underlying changes no data of another, and a bump that changes nothing reports so.",
 ["inputs", "histories"], "all market values, bump kinds and sizes, and bump sequences up to a bounded length",
 "Tests apply one bump of each kind with fixed sizes and restore once.",
 ["src/risk/marketdata.rs", "src/risk/cache.rs", "src/data/bumpspot.rs", "src/data/bumpyield.rs", "src/data/bumpvol.rs", "src/data/bumpdivs.rs"], m(("save-before-overwrite in every bump", "src/risk/marketdata.rs"), ("saved prefetched data", "src/risk/cache.rs")))

prop("C17", "Prefetched market data always answers like the market data itself",
 "A pricing context that prefetches the data instruments depend on answers every query they make exactly as the underlying market data would, both initially and after any bump and any restore. Prices therefore do not depend on whether data was prefetched.",
 ["inputs", "histories"], "all market values, bump kinds and sizes, bounded bump sequences",
 "Tests compare single bumped prices to stored numbers.",
 ["src/risk/cache.rs", "src/risk/marketdata.rs", "src/risk/dependencies.rs"], m(("refetch of the data a bump touches", "src/risk/cache.rs")))

prop("C18", "Dependency collection covers everything an instrument needs",
 "Collecting the dependencies of an instrument records every spot, yield curve, forward, vol surface and fixing it uses, each up to the latest date any user of it needs, whatever the order in which instruments are added. The result does not depend on that order, and records nothing twice.",
 ["inputs", "histories"], "all dates of the instruments and all orders of adding them, for bounded sets",
 "Tests add instruments in one order with fixed dates.",
 ["src/risk/dependencies.rs", "src/instruments/options.rs", "src/instruments/basket.rs", "src/instruments/bonds.rs"], m(("high-water marks per data id", "src/risk/dependencies.rs")))

prop("C19", "Reported delta, gamma, vega and volga are the stated finite differences",
 "Delta and gamma are the first and second central differences of price under the stated relative spot bump, vega and volga those under the stated volatility bump, one result for each underlying of the position. Producing a report leaves the pricer's price and market data unchanged.",
 ["inputs", "histories"], "all market values and bump sizes, positions on bounded numbers of underlyings",
 "Tests compare one position against stored numbers at one bump size.",
 ["src/risk/deltagamma.rs", "src/risk/vegavolga.rs", "src/risk/mod.rs"], m(("bump, price, restore", "src/risk/deltagamma.rs")))

prop("C20", "Moving the valuation date fixes what has passed and reprices consistently",
 "Moving the spot date forward fixes exactly the observations between the old and the new date, using spot or forward as the spot-date dynamics say, and the position afterwards prices like one built with those fixings on that date. A theta report is the change of price over the move and leaves the original pricer unchanged.",
 ["inputs", "histories"], "all market values and all orders of old date, new date and observation dates",
 "Tests roll one option by one step.",
 ["src/risk/bumptime.rs", "src/risk/timebumped.rs", "src/data/bumpspotdate.rs", "src/pricers/selfpricer.rs"], m(("fixing table built from the forward curve", "src/risk/bumptime.rs")))

prop("C21", "European option values follow Black on the forward with exact discounting",
 "A European option is worth the Black value of its payoff on the forward at expiry with the variance to expiry, discounted between settlement and payment; call minus put equals the discounted forward minus strike, and after expiry the option is worth nothing. Forward-starting options equal spot-starting options whose strike is the fraction of the forward where this is exact.",
 I, "all spots, strikes, vols, rates and dates around expiry",
 "Tests compare a few stored values for one market.",
 ["src/instruments/options.rs", "src/math/optionpricing.rs"], m(("pricing through a context", "src/instruments/options.rs")))

prop("C22", "Fixing an instrument replaces it by what is really owed",
 "An option whose expiry fixing is known becomes its payoff: nothing if out of the money, cash of the intrinsic amount at the payment date if cash settled, or the asset against the strike if physically settled. A strike fixing turns a forward-starting option into one struck at that fraction, fixing a basket or a portfolio fixes each component with its weight, and fixings of other instruments or later times change nothing.",
 ["inputs", "histories"], "all fixing values, strikes, weights and orders of fixing times",
 "Tests follow a few fixed paths through the life cycle.",
 ["src/instruments/options.rs", "src/instruments/mod.rs", "src/instruments/basket.rs"], m(("fix on each instrument", "src/instruments/options.rs")))

prop("C23", "Positions price as the weighted sum of their parts",
 "A basket and a priced portfolio are worth the weighted sum of their components, a currency is worth one unit, an equity is worth its spot on the spot date and its forward on later dates, and a zero coupon is worth its discount factor until it goes ex and nothing afterwards. Pricing several dates at once gives what pricing each alone gives.",
 I, "all weights, market values and dates for bounded baskets",
 "Tests price two baskets against stored numbers.",
 ["src/instruments/basket.rs", "src/instruments/bonds.rs", "src/instruments/assets.rs", "src/pricers/selfpricer.rs"], m(("linear pricing", "src/instruments/basket.rs")))

prop("C24", "Monte-Carlo valuation averages the discounted pathwise payoffs",
 "Given simulated paths, the Monte-Carlo value of an instrument is its weight times the sum over cash flows of the path average of what each flow pays on that path, times the value of one unit paid at its date; several instruments at once are refused. The pathwise payoff of an option is the intrinsic value at its expiry observation with the strike observed on that path, and observations are read from the time at which they were requested.",
 ["inputs", "histories"], "all path values, strikes, weights and discount curves for bounded numbers of paths",
 "The Monte-Carlo tests are skipped because they are not reproducible.",
 ["src/models/mod.rs", "src/models/blackdiffusion.rs", "src/instruments/options.rs", "src/pricers/montecarlo.rs"], m(("timeline collation and flow evaluation", "src/models/mod.rs")))

prop("C25", "Simulated paths have the market forward and variance",
 "Whatever Gaussian draws are used, a simulated path has its observations at the requested times, equals the forward when all draws are zero, and takes each step with the model's variance for that step; correlated assets mix draws so that their correlation is the requested one. Bumping and restoring market data leaves the simulation as it was.",
 ["inputs", "histories"], "all draws, forwards, vols and correlations for bounded numbers of assets and steps",
 "The Monte-Carlo tests are skipped because they are not reproducible.",
 ["src/models/blackdiffusion.rs"], m(("correlated Gaussians and path construction", "src/models/blackdiffusion.rs")))

prop("C26", "Handles hold exactly what was put in, and misuse is an error",
 "A handle gives back the object it was made from when asked for that kind, and an error, never a panic or another object, when asked for a different kind; an error handle stays an error through every conversion. Cloning a handle gives an independent handle to the same object, and an unclonable one says so.",
 ["inputs", "histories"], "all pairs of handle kinds and requested kinds",
 "Tests never ask for the wrong kind.",
 ["src/facade/handle.rs", "src/facade/c_interface.rs"], m(("tagged enum of boxed objects", "src/facade/handle.rs")))

prop("C27", "Writing objects out and reading them back gives the same objects",
 "Every market-data and instrument object that can be written to the tagged serial form reads back as an object that answers all queries as the original does. Sharing of sub-objects by id is preserved, and an unknown type tag or a missing shared object is an error.",
 I, "all numeric contents of each kind of object",
 "Tests round-trip single instances and compare text.",
 ["src/core/factories.rs", "src/core/dedup.rs"], m(("type registry", "src/core/factories.rs"), ("deduplicated shared objects", "src/core/dedup.rs")))

prop("C28", "Comparing reports finds every difference beyond tolerance, and no other",
 "Two sets of reports compare as equal just when they have the same number of reports of the same kinds on the same underlyings and every figure, also in nested reports, agrees within its tolerance. Prices and theta are held to the price tolerance, vega to the currency risk tolerance per bump and delta to the unit risk tolerance per bump, second-order figures per bump squared.",
 I, "all figures, bump sizes and tolerances for bounded numbers of reports and underlyings",
 "Tests compare one set of reports with itself read back, so a comparison which finds nothing would pass.",
 ["src/risk/deltagamma.rs", "src/risk/vegavolga.rs", "src/risk/timebumped.rs", "src/risk/mod.rs", "src/facade/mod.rs"], m(("comparison of reports with tolerances", "src/risk/mod.rs")))

prop("C29", "Implied volatility is the volatility that gives the target price",
 "Solving for the implied volatility of a position on one underlying finds, within the tolerance, the flat volatility at which the position is worth the target, whatever its volatility was before. A target that no volatility in the interval reaches, a position that depends on none or on several volatilities, and a price that cannot be computed are errors.",
 I, "all targets, market values and prior surfaces for linear values and calls",
 "The test solves one option for one price.",
 ["src/solvers/impliedvol.rs", "src/math/brent.rs", "src/data/bumpvol.rs"], m(("root finding on the bumped price", "src/solvers/impliedvol.rs")))

prop("C30", "Text from another language becomes the object it describes, or an error",
 "Each entry point that reads text gives a handle to the object described when the text describes one of its kind, and otherwise, for text that is malformed, cut short or for another kind, an error handle and never a panic. Parts of an instrument named by their ids are those given, or those met earlier in the text where sharing was asked for, and anything else is an error.",
 I, "all short texts, all places where a text is cut or damaged, all ways of sharing",
 "Tests read one good text for each kind.",
 ["src/facade/c_interface.rs", "src/facade/mod.rs", "src/core/dedup.rs", "src/core/factories.rs"], m(("entry points for text", "src/facade/c_interface.rs")))
