"""Write DESIGN.md: the general part, one section per property, and what the planted bugs showed."""
import json, os
import harness_table
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

# property: (oracle, what is beyond the tests, what is outside, seconds on 8 cores)
D = {
"C01": ("The Gregorian calendar written from its definition: leap years, month lengths, days counted from 1 January of year 1. Symbolic day numbers and symbolic (y, m, d) go through the conversion both ways; weekday is the day count modulo seven from a known day.",
        "An error on one day of a century or leap year is invisible to the tests' few dozen dates; here each claim is one query over all days.",
        "years outside 1 to 9999.", 40),
"C02": ("A reference parser over the symbolic bytes: three groups of digits with two hyphens, each in range, decide whether the text must be accepted and which date it must give. Printing is compared byte by byte with the digits of year, month and day.",
        "Malformed text is not tested at all.", "texts longer than the bounds; non-ASCII text.", 80),
"C03": ("Counting day by day: business days up to a day are a sum of indicators. The weekday closed form used for long steps is shown equal to that sum by `h_c03_lemma`; holidays are added as symbolic dates. A step is right when the end is a business day and the count between start and end is the step.",
        "Tests use one set of holidays; here the holidays are placed anywhere, on weekends and next to each other included.",
        "more than three holidays; steps longer than the bounds; volatility calendars over a step beyond six weighted days.", 123),
"C04": ("Each rule is stated by quantities: no good business day strictly between start and result, result good, right side of the start, month unchanged or the other direction taken.",
        "Month ends made of holidays are not tested.", "more than two holidays.", 79),
"C05": ("Lexicographic comparison of (day, time) and of (day, fraction) written out, with totality and transitivity.",
        "Only a few pairs are tested.", "nothing further.", 17),
"C06": ("The chord through the two neighbours found by scanning, and a table of the five policies per side.",
        "Tests never use different policies on the two sides (a real defect was there, repaired in ba25d66).", "more than four points.", 19),
"C07": ("The defining equations of the spline: interpolation, value, slope and curvature equal from both sides of each knot (slopes and curvatures recovered exactly from values of the cubic pieces), end conditions per policy, lines reproduced.",
        "Stored numbers of the tests pin one spline. Two defects were found (7f9387e, aecc2d2).", "more than five knots; knot positions other than the five sets (with three points the gaps are free).", 52),
"C08": ("The function is adversarial: every evaluation returns a fresh symbolic value (the same one for the same point). Asserted are the bracket of every evaluation, the sign change within tolerance at the result, and the error cases.",
        "One equation is solved by the tests; a step outside the bracket needs a special run of values (found and repaired, f74b163).",
        "more iterations than bounded; the values in the later iterations are from a few per step.", 104),
"C09": ("The Black formula written with an uninterpreted normal distribution, and put-call parity and bounds as inequalities.", "Tests compare stored prices.",
        "zero variance (C21 has it); numerical accuracy of the normal distribution.", 13),
"C10": ("Rate times time from the chord oracle of C06 times the act/365 year fraction; bumps by their formula; discount factors by multiplication.", "Few dates are tested, and no policy but one.", "more than three points.", 40),
"C11": ("Sums over the list of dividends with an indicator for each ex-date in the interval.", "Tests ask one stream at a few dates. Three defects were found and repaired.", "more than three dividends.", 17),
"C12": ("The cash-and-carry argument: spot less discounted dividends gone ex, scaled and grown.", "One curve is tested.", "more than two dividends. That the yield raises the forward is a known finding: a test depends on it.", 49),
"C13": ("A list of (instrument, date, time, value) searched linearly.", "Two or three lookups are tested.", "more than three fixings.", 35),
"C14": ("Volatility squared times vol time, with vol time from day-by-day counting; between pillars linear variance at equal moneyness, where the oracle finds the moneyness itself.", "Tests ask a few strikes and dates. One defect was found (f12241e).", "smiles other than those listed; calendars with holidays (C03 has them).", 100),
"C15": ("The undecorated surface asked at the arguments that the decorator's description names.", "A few arguments are tested.", "surfaces other than flat and linear.", 16),
"C16": ("A snapshot of all answers before the bumps, term by term, compared with the answers after the restore; other underlyings compared after the bump.", "Tests apply single bumps with fixed numbers. Three defects were found and repaired.", "sequences of more than two bumps; moving the date, which cannot be restored by design.", 53),
"C17": ("The same query put to the market data and to the prefetched data.", "Tests compare prices of one option. Two defects were found and repaired.", "more than two bumps; queries later than the dates the instruments need.", 45),
"C18": ("A recording pricing context notes what an instrument asks for while it is priced; the recorded dependencies must include all of it and be independent of order.", "Tests look at single instruments.", "more than two instruments. The discounting of an option of another credit is a known finding.", 20),
"C19": ("A pricer that is a polynomial with symbolic coefficients, whose central differences are known exactly; and positions of real instruments, where the oracle reprices with separately bumped data.", "Tests compare stored numbers for one option.", "more than two underlyings. That the lower volatility of a flat bump is not the mirror of the upper is a known finding, held by tests.", 48),
"C20": ("A second position built afresh at the new date with the fixings that the rule demands, priced on the same symbolic market.", "Tests move one option over one date.", "moves of more than 40 days; more than two moves.", 28),
"C21": ("The Black formula on the forward and variance asked of the market data separately, discount by the curve from settlement to payment.", "Tests price with one strike and rate. Two defects were found (f7d13f4, 1716d64).", "other surfaces than the two; American features do not exist.", 55),
"C22": ("What is owed, from the words of the contract.", "Tests fix a handful of options with cash settlement.", "baskets with options inside which are prefetched (an error in the library's design).", 22),
"C23": ("The weighted sum of the parts priced alone.", "Tests sum fixed numbers.", "more than three parts.", 23),
"C24": ("Payoffs of symbolic paths written out; flows times discount factors averaged over paths; for whole valuations paths are rebuilt from the draws.", "The Monte-Carlo tests are not among the stable ones.", "more than three paths.", 42),
"C25": ("The path recomputed step by step from draws, forwards and variances; the requested correlation from products of the mixing matrix.", "As for C24. Three defects were found and repaired.", "more than three assets, times or sub-steps. The first step's variance runs from the base date of the surface, which is the model's choice and kept.", 54),
"C26": ("A table of nine kinds by nine kinds.", "Each conversion is tested for its own kind only.", "entry points that take text, which are C30.", 24),
"C27": ("All queries of the object put to the original and to the one read back.", "Tests compare the written text with itself; only a few kinds are read back. Two defects were found (e08ef0a, e01b228).", "sticky-delta bumps, which are documented as not readable; printing and parsing of digits.", 30),
"C28": ("Per-figure inequality with the tolerance from the words of the property, combined by counting.", "Tests compare equal reports and one difference.", "more than two reports a side.", 40),
"C29": ("The root of the line itself; for a call the values at both ends from data built with these volatilities.", "The test solves one call for one price.", "convergence on curved values, for which C08 bounds the root finder; the state in which the position is left.", 30),
"C30": ("Which texts are valid is known because each is a valid one, possibly damaged; for shared parts a replay of the words of the property.", "Tests read good texts only.", "files, text after the end of an object, letters beyond ASCII.", 40),
}

def main():
    out = [open(os.path.join(HERE, "design_head.md")).read()]
    titles = {}
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(line)
        titles[p["id"]] = p["title"]
    for pid, spec in harness_table.PROPS.items():
        oracle, beyond, outside, cost = D[pid]
        out.append("### %s %s\n\n" % (pid, titles[pid]))
        out.append("* Oracle: %s\n* Beyond the tests: %s\n* Cost: about %d s on 8 cores.\n* Outside: %s\n* Harnesses and bounds:\n" % (oracle, beyond, cost, outside))
        for h in spec["harnesses"]:
            out.append("  * `%s`: %s.\n" % (h["name"], h["bounds"]))
        for a in spec.get("assumptions", []):
            out.append("  * assumed: %s.\n" % a)
        out.append("\n")
    out.append(open(os.path.join(HERE, "design_tail.md")).read())
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("".join(out))

main()
