"""Which harnesses decide which property, their bounds, and what each claim assumes."""

COMMON_ASSUMPTIONS = [
    "floating point numbers are treated as exact reals; rounding, overflow to infinity and NaN are outside the claim (counterexamples are nevertheless confirmed in double arithmetic before they are reported)",
    "exp, ln, sqrt, pow, erf and erfc of symbolic arguments are uninterpreted reals constrained by sound facts (sign, monotonicity, bounds, functional equations on the terms present)",
    "memory allocation succeeds; a single thread; the default hasher gives every key the same hash, so maps tell keys apart by equality alone and iterate in one order",
    "the compiler (rustc to LLVM IR at opt-level 0) and the solvers (z3, cvc5) are trusted; traces_validated_against_impl counts models of explored paths whose native run gave the same observations",
    "the digits of a symbolic number are left out of formatted text (error messages, descriptions of differences), and nothing is printed; no assertion looks at such digits",
    "nothing is claimed for inputs outside the bounds listed per harness",
]


def h(name, bounds, **kw):
    return dict(name=name, bounds=bounds, **kw)


PROPS = {
    "C01": dict(harnesses=[
        h("h_c01_to_ymd", "every day from 0001-01-01 to 9999-12-31", cost=20),
        h("h_c01_from_ymd", "every year, month and day of the Gregorian calendar in years 1 to 9999", cost=6),
        h("h_c01_arithmetic", "every pair of days in years 1 to 9999, offsets up to 5,000,000 days"),
        h("h_c01_weekday", "every supported day and 1000 days either side"),
    ]),
    "C02": dict(harnesses=[
        h("h_c02_iso", "every text dddd-dd-dd of ten bytes with arbitrary digits", jobs=4, cost=60, covers=[1, 2]),
        h("h_c02_print", "every supported date", cost=10),
        h("h_c02_print_parse", "every date of 400 days around 2018 (all dates by combining the two harnesses above)", cost=10),
        h("h_c02_short", "every printable text of up to 4 bytes"),
        h("h_c02_components", "0 to 5 components, one of them empty or holding an arbitrary printable non-digit", covers=[1, 2]),
        h("h_c02_damaged", "a good date with one arbitrary printable non-digit inserted or put in place of a character, anywhere"),
        h("h_c02_large", "one component of 5 to 10 arbitrary digits"),
    ]),
    "C03": dict(harnesses=[
        h("h_c03_lemma", "every day number from 1 to 100,000"),
        h("h_c03_every", "every supported day, steps of up to 70,000 days, fractions in [0,1]"),
        h("h_c03_weekday_step", "every supported day, every step that stays in range"),
        h("h_c03_weekday_count", "every pair of supported days, fractions in [0,1]"),
        h("h_c03_holiday_step", "two holidays anywhere in 400 days, start within 300 days of them, steps of up to 400 business days", cost=30),
        h("h_c03_holiday_run", "three holidays anywhere in 12 days, start within 4 days of them, steps of up to 7 business days", jobs=8),
        h("h_c03_holiday_count", "two holidays anywhere in 400 days, both ends within 300 days of them, fractions in [0,1]", cost=16),
        h("h_c03_few", "no holiday or one anywhere in 14 days, dates within a week of it, steps of up to 12 business days", cost=20),
        h("h_c03_year_fraction", "every pair of supported days, every fraction of a day"),
        h("h_c03_vol_count", "every pair of supported days, every holiday weight and fraction in [0,1]"),
        h("h_c03_vol_step", "a week of start days, every holiday weight in [0.05,1], steps of up to 6 weighted days", cost=50),
    ]),
    "C04": dict(harnesses=[
        h("h_c04_rules", "two holidays anywhere in 60 days, any start within 10 days of them, steps of up to 20", cost=56),
        h("h_c04_modified", "two holidays anywhere in a year, any start within 10 days of them", covers=[1, 2]),
        h("h_c04_weekday", "every supported day, steps of up to 100", cost=33),
    ]),
    "C05": dict(harnesses=[
        h("h_c05_datetime", "every pair of days in years 1 to 9999, every time of day, offsets up to 100,000 days"),
        h("h_c05_equity", "every pair of supported days, every time of day", covers=[1, 2]),
        h("h_c05_fraction", "every pair of days in years 1 to 9999, every fraction in [0,1)"),
    ]),
    "C06": dict(harnesses=[
        h("h_c06_linear", "1 to 4 points anywhere in [-100,400] at least 0.001 apart, all values in [-1000,1000], all 25 pairs of policies, every query in [-500,500]", covers=[1, 2, 3, 4]),
        h("h_c06_flyweight", "the same with 2 or 3 points handed over at the call", covers=[1, 2, 3, 4]),
        h("h_c06_dates", "three increasing dates anywhere in the supported range, every query date, flat and natural policies", covers=[1, 2, 3, 4]),
        h("h_c06_invalid", "0 to 3 points in any order", covers=[1, 2]),
    ]),
    "C07": dict(harnesses=[
        h("h_c07_smooth", "five sets of 2 to 5 knots, all values in [-1000,1000], natural and flat ends in all four combinations, every query inside and within 10 outside", jobs=4, cost=50, covers=[1, 2, 3]),
        h("h_c07_policies", "three points, all 25 pairs of policies"),
        h("h_c07_line", "five sets of 2 to 5 knots, every line, every query within [-20,20]"),
        h("h_c07_spacing", "three points at any two gaps in [0.1,10]"),
        h("h_c07_invalid", "0 to 3 points in any order", covers=[1, 2]),
    ]),
    "C08": dict(harnesses=[
        h("h_c08_one", "one iteration, all function values in [-100,100] at every point asked", covers=[1, 2, 3]),
        h("h_c08_two", "two iterations, all function values in [-100,100] at every point asked", covers=[1, 2, 3], jobs=3, cost=60),
        h("h_c08_ends3", "three iterations, three pairs of values at the ends, two brackets (one reversed), the third value anything in [-100,100], the others from six", covers=[1, 3], cost=20),
        h("h_c08_ends4", "four iterations, as before with the later values from four", covers=[1, 3], jobs=4, cost=60),
        h("h_c08_late", "four iterations after each of six histories of four values, the fifth value anything in [-100,100]", covers=[3], jobs=2, cost=30),
        h("h_c08_line", "every line of slope 0.1 to 10 either way with its root in the bracket"),
        h("h_c08_errors", "an error from any of the first four evaluations"),
    ]),
    "C09": dict(harnesses=[
        h("h_c09_parity", "forward and strike in [0.01,1000], discount factor in [0,2], standard deviation in [0.001,10]"),
        h("h_c09_formula", "as above"),
        h("h_c09_cdf", "arguments in [-40,40]"),
    ]),
    "C10": dict(harnesses=[
        h("h_c10_curve", "1 to 3 points within 400 days before and 4400 after the base date, all rates in [-0.5,0.5], all 25 pairs of policies, every query from 500 days before to 6000 after the base date", covers=[1, 2, 3]),
        h("h_c10_df", "all kinds of curve, single and nested bumps, any three dates in 1000 days; rates in [-0.3,0.3], bumps in [0,0.1]", covers=[1, 2]),
        h("h_c10_bumps", "a two point curve, rates in [-0.3,0.3], bumps in [-0.2,0.2], every date from 100 days before to 1000 after the base date"),
        h("h_c10_zero", "every date from 1000 days before to 10,000 after"),
    ]),
    "C11": dict(harnesses=[
        h("h_c11_cash", "0 to 3 cash dividends of 0.01 to 10, ex anywhere from 5 days before to 700 after the base date, paid within 30 days, rates in [-0.1,0.2], borrow in [-0.05,0.05], every query date to 1000 days"),
        h("h_c11_between", "two cash dividends as above, both ends of the interval free", covers=[1, 2]),
        h("h_c11_relative", "two dividends with cash and relative parts, any spot in [10,1000]"),
        h("h_c11_range", "two dividends, any stated end date and query date in 900 days", covers=[1, 2]),
        h("h_c11_refused", "two dividends in any order, a dividend yield starting anywhere or none", covers=[1, 2]),
        h("h_c11_bump", "two dividends with cash and relative parts, a two point yield, any bump in [-0.5,0.5]"),
    ]),
    "C12": dict(harnesses=[
        h("h_c12_forward", "0 to 2 cash dividends or one with a relative part, settlement of 0 or 2 business days, any spot in [10,1000], every date in 400 days", covers=[1, 2], cost=34),
        h("h_c12_today", "two dividends with cash and relative parts, settlement of 0 or 2 business days"),
        h("h_c12_curve", "a three point rate curve, no dividends, any pair of spots, every date in 500 days"),
        h("h_c12_later", "two dividends with cash and relative parts"),
        h("h_c12_yield", "a flat yield in [0.001,0.1] from 30 days on, every date in 700 days"),
        h("h_c12_others", "every date from 100 days before to 5000 after"),
    ]),
    "C13": dict(harnesses=[
        h("h_c13_lookup", "three fixings of two instruments at any dates in 25 days and any of 3 times of day, any known date, every query among three instruments", covers=[1, 2, 3], cost=47),
        h("h_c13_duplicates", "two fixings at any dates in 25 days and any of 3 times of day, one or two instruments"),
    ]),
    "C14": dict(harnesses=[
        h("h_c14_flat", "any volatility in [0,2], any interval in 500 days with any fractions of a day", covers=[1, 2]),
        h("h_c14_add", "any volatility in [0,2], any three dates in 500 days"),
        h("h_c14_pillars", "three flat smiles with any volatilities in [0.05,0.8], every date and fraction in 300 days; before, at and after the smiles", covers=[1, 2, 3, 4], cost=10),
        h("h_c14_between", "the same between the smiles, at any fraction of 12 days after each of two smiles", covers=[1, 2], cost=10),
        h("h_c14_moneyness", "two fixed smiles, five dates (at, between and beyond the smiles), every strike in [80,125]", covers=[1, 2, 3]),
        h("h_c14_forward_smile", "two fixed smiles, nine intervals, every strike in [80,120]", covers=[1, 2], cost=28),
        h("h_c14_displacement", "all four dividend assumptions"),
    ]),
    "C15": dict(harnesses=[
        h("h_c15_parallel", "a flat surface and one linear in strike and date, bumps in [-0.5,0.5], every strike in [70,140], every date in 100 days"),
        h("h_c15_scaled", "as above, floors in [0.01,0.2]", covers=[1, 2]),
        h("h_c15_replace", "as above, every date in 400 days"),
        h("h_c15_sticky", "as above, any new forward in [50,200]"),
        h("h_c15_constant_expiry", "as above, moved to any of 60 days", covers=[1, 2]),
        h("h_c15_rolling", "as above, moved by 0 to 18 days onto a weekday"),
        h("h_c15_zero", "as above"),
        h("h_c15_dynamics", "as above"),
    ]),
    "C16": dict(harnesses=[
        h("h_c16_market", "two underlyings, any spots, rates, borrow costs, dividends and volatilities, every pair out of twelve bump kinds, any sizes", cost=30),
        h("h_c16_rounds", "two rounds of bump, restore and clear, any sizes", covers=[1, 2]),
        h("h_c16_mismatch", "a saved state of the wrong kind"),
    ]),
    "C17": dict(harnesses=[
        h("h_c17_prefetch", "two underlyings with options on them, any market values, every pair out of twelve bump kinds, any sizes, then a restore", cost=27),
        h("h_c17_spot_only", "an underlying with no options on it, any spots"),
        h("h_c17_clone", "a copy bumped alone, any market values"),
    ]),
    "C18": dict(harnesses=[
        h("h_c18_covers", "nine kinds of instrument, dates within 20 days", covers=[1, 2, 3, 4]),
        h("h_c18_credit", "options whose credit differs from that of their underlying", covers=[1]),
        h("h_c18_discount", "the discounting of an option of another credit (a known finding)"),
        h("h_c18_marks", "two users of one curve at any dates"),
        h("h_c18_order", "two instruments of any of nine kinds in both orders", covers=[1, 2]),
        h("h_c18_fixings", "two users of one fixing at any dates"),
    ]),
    "C19": dict(harnesses=[
        h("h_c19_delta", "any polynomial of two spots (degree three) and their variances, bump of 0.1% to 20%, any weight", covers=[1]),
        h("h_c19_position", "nine kinds of instrument, any weight, bump of 0.1% to 20%", covers=[1, 2]),
        h("h_c19_vega", "any polynomial of two spots and their variances, vols of 20% to 50%, bump of 0.1 to 5 points, flat or scaled by time", covers=[1], cost=30),
        h("h_c19_vega_down", "the lower of the two volatilities (a known finding)", cost=25),
    ]),
    "C20": dict(harnesses=[
        h("h_c20_move", "four positions of options, forward starts, baskets and bonds; two expiries; six new dates up to 40 days on; both dynamics", covers=[1], cost=10),
        h("h_c20_twice", "the same positions, two moves among four dates up to four days on", covers=[1], cost=10),
        h("h_c20_theta", "the same positions and dates as a single move, report with delta and gamma for a bump of 6.25%", covers=[1, 2], cost=10),
    ]),
    "C21": dict(harnesses=[
        h("h_c21_value", "flat or skewed surface with fixed dividends; spot, strike, volatility and rates free; four expiries, four valuation dates, open or close, put or call, cash or physical", covers=[1, 2, 3, 4], jobs=4, cost=50),
        h("h_c21_settle", "options of both kinds settled after 0, 1 or 5 days on a stock settled after 2; two expiries, three valuation dates, any market values"),
        h("h_c21_parity", "the same markets, any strike, with or without skew", covers=[1], cost=7),
        h("h_c21_start", "a forward start with any fraction in [0.5, 2], three strike dates, both surfaces", covers=[1, 2], jobs=4, cost=67),
        h("h_c21_spot_start", "a strike date already reached by the forward curve", covers=[1], cost=3),
        h("h_c21_refused", "strike and expiry in the wrong order", covers=[1, 2]),
        h("h_c21_dates", "several valuation dates at once", covers=[1], cost=2),
    ]),
    "C22": dict(harnesses=[
        h("h_c22_option", "any strike and fixing in [1, 300]; expiry at open or close of two days; the fixing there, at the other time of day or a week before; five dates of known fixings; put or call; cash or physical", covers=[1, 2, 3, 4, 5]),
        h("h_c22_start", "any fraction in [0.5, 2] and fixings in [50, 150]; each fixing known or not; four dates of known fixings", covers=[1, 2, 3, 4, 5]),
        h("h_c22_still", "equity, currency, bond and basket without options", covers=[1]),
        h("h_c22_all", "positions of one to four instruments, each unaffected, not yet due, cash or physically settled; any weights and fixing", covers=[1, 2]),
        h("h_c22_basket", "a basket of a forward start and others, and one in another, any weights and fixing", covers=[1, 2]),
        h("h_c22_twice", "strike and expiry fixed one after the other and together", covers=[1]),
    ]),
    "C23": dict(harnesses=[
        h("h_c23_basket", "three weighted parts, one of any kind, flat or nested, one to three dates", covers=[1], cost=5),
        h("h_c23_position", "a pricer on up to three instruments of all kinds, any weights", covers=[1]),
        h("h_c23_factory", "a pricer on an instrument that fixes first: stock, forward start, expired option, basket, bond", covers=[1]),
        h("h_c23_simple", "cash and zero coupons on any date of 60 and any ex date of 60", covers=[1, 2]),
        h("h_c23_stock", "up to three dates among nine, open or close", covers=[1], cost=2),
    ]),
    "C24": dict(harnesses=[
        h("h_c24_payoff", "one to three given paths of any values, spot start or forward start, put or call, any strike", covers=[1, 2]),
        h("h_c24_asked", "spot start or forward start, at open or close, any strike date of 21 and expiry of 40; any market values", covers=[1]),
        h("h_c24_flows", "one to three paths, one to three flows of two credits, any quantities and market values", covers=[1]),
        h("h_c24_value", "one or two paths of a call or put of any strike, one path of a forward start; two expiries; any draws, spot, volatility, weight and rate for discounting; zero rates for the forward", covers=[1, 2], jobs=4, cost=28),
        h("h_c24_fixed", "a forward start struck at any fixing, and a stock, which cannot be simulated; one path, any draw", covers=[1, 2]),
        h("h_c24_two", "two options, any weight", covers=[1]),
        h("h_c24_bumped", "one path of a call, seven bumps of any size in [-0.05, 0.05], and the restore", covers=[1], cost=15),
        h("h_c24_later", "one path of a forward start moved to one of three dates, before, on and after its strike date; spot or forward kept", covers=[1, 2], jobs=4, cost=25),
    ], assumptions=["the uncorrelated Gaussian draws are arbitrary reals in [-4, 4] supplied by the harness through the verif_draws hook in place of the random number generator, whose distribution is not examined"]),
    "C25": dict(harnesses=[
        h("h_c25_path", "one or two paths, one to three times of four lists, one or two sub-steps each, any draws; flat surface, or skewed surface with a linear forward of any level and slope", covers=[1, 2], cost=3),
        h("h_c25_still", "one to three times of four lists, one to three sub-steps each; flat or skewed surface", covers=[1], cost=2),
        h("h_c25_variance", "one draw in any sub-step of any of one to three times, one to three sub-steps each; flat surface of any volatility, zero rates for the forward", covers=[1], cost=22),
        h("h_c25_substeps", "one or two times of four lists, one or two assets, any limit in [0.01, 1]", covers=[1], cost=2),
        h("h_c25_correlated", "one to three assets, any correlations in [-0.9, 0.9] with a determinant above 0.01", covers=[1, 2, 3]),
        h("h_c25_mixed", "two assets of any correlation in [-0.9, 0.9], one or two paths, up to three sub-steps, any draws", covers=[1]),
        h("h_c25_assets", "two assets in either order, two paths, one or two times of four lists, any draws", covers=[1]),
        h("h_c25_bumps", "two bumps of seven kinds and any size in [-0.05, 0.05], and the restore; one path of two times", covers=[1], cost=23),
        h("h_c25_again", "two bumps of seven kinds and any size, each restored, with one save area cleared between; one path of two times", covers=[1], cost=13),
    ], assumptions=["the uncorrelated Gaussian draws are arbitrary reals in [-4, 4] supplied by the harness through the verif_draws hook in place of the random number generator, whose distribution is not examined"]),
    "C26": dict(harnesses=[
        h("h_c26_kinds", "every pair of nine handle kinds and nine kinds asked for, any figure in the reports", covers=[1]),
        h("h_c26_raw", "the same through handles as other languages hold them", covers=[1]),
        h("h_c26_failed", "a failure to make each of eight kinds, asked for as each of nine", covers=[1]),
        h("h_c26_clone", "every sequence of three clones and frees of a handle of any kind", covers=[1, 2]),
        h("h_c26_text", "the error text and report text of each kind, and a comparison with it on either side", covers=[1, 2]),
        h("h_c26_calculate", "a calculation with none to two generators and one handle of any kind at any place; any market values", covers=[1, 2]),
    ]),
    "C27": dict(harnesses=[
        h("h_c27_curve", "five kinds of curves, nested to depth three, any rates and bumps, nine pairs of extrapolations; asked at five dates", covers=[1]),
        h("h_c27_vol", "seven kinds of surfaces, decorators on any of three; any flat volatilities, displacement and bumps; asked at five dates and strikes", covers=[1]),
        h("h_c27_calendar", "six calendars, any weight; asked at any of 15 days and any time of day", covers=[1]),
        h("h_c27_rule", "six rules on three calendars, asked at any of 15 days", covers=[1]),
        h("h_c27_divs", "four streams, with and without cash dividends, any amounts", covers=[1]),
        h("h_c27_fixings", "none to two curves of any fixings known to three dates", covers=[1]),
        h("h_c27_market", "two assets, any spots, rates, borrow and volatility, two kinds of surfaces and two of dividends for the second", covers=[1]),
        h("h_c27_instrument", "eleven instruments of all kinds, any strike, priced at four times on any market values and fixed with any fixing", covers=[1, 2]),
        h("h_c27_shared", "a basket with a stock shared by two parts and an option, any weight and strike", covers=[1]),
        h("h_c27_text", "as text: a basket of three parts, two of them any of four; currencies and instruments inline or once", covers=[1, 2, 3], cost=5),
        h("h_c27_given", "none to three known instruments, a currency known or not on either side", covers=[1, 2, 3, 4]),
        h("h_c27_nothing_left", "after a writing, and after one that failed", covers=[1]),
        h("h_c27_unknown", "eleven tags read as each of nine kinds of object", covers=[1]),
        h("h_c27_generator", "seven generators, any bump; the report on a position of any market values", covers=[1]),
        h("h_c27_factory", "the analytic pricer, any strike and market values", covers=[1]),
        h("h_c27_simulation", "any numbers of paths and steps, any length of step", covers=[1]),
    ], assumptions=["objects pass through the JSON value tree, in which numbers stay numbers, except in h_c27_text; the printing and parsing of the digits of a double in the JSON library is outside the claim"]),
    "C28": dict(harnesses=[
        h("h_c28_figures", "one report of three kinds on one or two underlyings, any two figures on each side, any bump in [0.001, 0.5] and tolerances in [0.001, 1]", covers=[1, 2]),
        h("h_c28_shape", "none to two reports on each side, each of three kinds, the first on any of three sets of underlyings", covers=[1, 2], cost=10),
        h("h_c28_nested", "a report of any kind or none within a report for a later time on each side, any figures and tolerances", covers=[1, 2, 3]),
    ]),
    "C29": dict(harnesses=[
        h("h_c29_line", "a value linear in the volatility of either asset, any constant, slope and target between the values at 0.05 and 1.05, weights 1 and -2, any flat or skewed surface before; tolerance 0.01, 20 iterations"),
        h("h_c29_bracket", "the same with any target that is not between those values"),
        h("h_c29_refused", "positions on no volatility or on two, and one without a value above any limit in [0.6, 1]"),
        h("h_c29_option", "a call of any strike in [50, 150] on any market values and any target; one interval of volatilities as wide as the tolerance", covers=[1, 2], cost=20),
    ], assumptions=["the volatility found is compared with the exact one for linear values only; for a call only the existence of a solution is decided"]),
    "C30": dict(harnesses=[
        h("h_c30_short", "every text of one to three printable letters read as each of seven kinds, without fractions", covers=[1]),
        h("h_c30_read", "a text for each of seven kinds read as each of seven kinds, any printable letter in a name", covers=[1, 2]),
        h("h_c30_cut", "a text for each of seven kinds cut anywhere", covers=[1]),
        h("h_c30_wrong", "one of the first 15 letters of a text for each of seven kinds replaced by any other printable letter", covers=[1], cost=10),
        h("h_c30_shared", "a basket of two, three currencies and one instrument inline or by id, three ways of sharing each, none to two currencies and instruments given", covers=[1, 2, 3], cost=20),
    ], assumptions=["text after the end of an object is not read and not claimed about"]),
}
NOT_APPLICABLE = {}
