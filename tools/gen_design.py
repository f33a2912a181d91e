#!/usr/bin/env python3
"""Writes DESIGN.md from design.md, properties.jsonl, bounds.json, known_findings.txt and seeded/.
With --record the bounds of the evidence at hand are stored in bounds.json first."""
import json, pathlib, sys, re
T = pathlib.Path(__file__).resolve().parent
V = T.parent
B = json.loads((T / "bounds.json").read_text()) if (T / "bounds.json").exists() else {}
if "--record" in sys.argv:
    for f in sorted((V / "evidence").glob("C*.json")):
        d = json.loads(f.read_text())
        if d["violations"]:
            continue
        B.setdefault(d["property"], {})[d["tier"]] = {
            "wall_s": round(d["wall_s"]),
            "sections": [{"name": s["name"], "bound": s["bound"], "executions": s["executions"], "exhaustive": s["exhaustive"]} for s in d["coverage"]["sections"]],
        }
    (T / "bounds.json").write_text(json.dumps(B, indent=1) + "\n")

# What is run, against which oracle.
P = {}
def p(id, runs, oracle, bins):
    P[id] = (runs, oracle, bins)
p("C01", "`trading::trade` over enumerated candle histories with a strategy that advises by the closes, for products of exchange configurations.",
  "A ledger (`tkit.rs`) that recomputes every fill of every reported position from the balance before it: largest admissible size, quote rounded down, fee rounded half up in the fee's asset. Exact where all factors are binary; within a rounding unit's 1e-7 of a tie both neighbours are accepted.", "mc_trade")
p("C02", "As C01 with shorts: borrow limits on both sides of the wanted amount, multipliers 1 to 5, interest intervals around the holding time.",
  "The same ledger for borrowed amount, collateral, sale, interest (started intervals by integer division of the milliseconds), both fees and the buy-back.", "mc_trade")
p("C03", "Whole backtests, all position kind settings, gaps at every place and candle intervals up to a week, from empty histories on.",
  "Lifecycle invariants over the reported summary: times are candle ends of the input, closes later than opens, no overlap, only the last one cancelled, none open, allowed kinds only, span and starting balance.", "mc_trade")
p("C04", "Whole backtests with 11 strategies whose advice includes silence, repetition and liquidation, with exits that coincide.",
  "An automaton of position, prevailing advice and exit priorities. It takes advice and exit signals from separate instances of the real strategy and exit objects (decided by C05, C06, C12) and balances from the ledger, and gives the whole expected list of positions.", "mc_trade")
p("C05", "Each stop loss object under every candle sequence with entry at every candle (and re-entry), four closes and wicks per candle; and whole backtests with each stop loss.",
  "The definition over the slice of closes since entry; in backtests an automaton that shares no code with the implementation decides every close reason.", "mc_exits")
p("C06", "As C05 for take profits, with all 31 easings, periods, lock and bound pairs for the trending one.",
  "Definitions over the slice since entry; the trending one takes progress from an ADX computed from scratch and from easing formulas written separately (also compared alone at 4001 points each).", "mc_exits")
p("C07", "Pairs of backtests: every cut of every history, time shifts, ordered pairs of strategies one after the other, and concurrent runs.",
  "2-safety: the summaries of both runs are compared bit for bit (after cutting or shifting).", "mc_trade")
p("C08", "All filter configurations and values on a grid of sixteenths, and decimal steps at three magnitudes.",
  "Integer arithmetic over sixteenths; results are fed back into rounding and the validity check.", "mc_values")
p("C09", "Moving average objects under every price sequence to a depth, and lassos for every period up to 300.",
  "The textbook definition evaluated from the whole price list at every update, plus the range invariant and the selection by name code.", "mc_indic")
p("C10", "Oscillators and directional indicators under every candle sequence to a depth (flat, gapping, rising, falling shapes), and lassos for every period up to 120.",
  "Definitions from the whole candle list at every update, range and finiteness invariants.", "mc_indic")
p("C11", "Every indicator and strategy object, fed past its announced maturity with every sequence to a depth or every lasso.",
  "At every update: mature exactly from the announced one on, the announcement depends on the parameters alone, nothing is advised or reported before.", "mc_indic")
p("C12", "Each strategy under every sequence of closes (or candle shapes) to a depth, alphabets with exact ties between the compared values, lassos for usual sizes.",
  "The published rule over indicator values recomputed from the whole history; where a value lies within float tolerance of a threshold (and is not exact in binary) both outcomes are followed.", "mc_strat")
p("C13", "The filters under every advice sequence and every sequence of runs of equal advice; filtered strategies under every candle sequence.",
  "Automata over the whole advice history for change, persistence, mid-trend, combination, enforcing and preventing oscillators.", "mc_strat")
p("C14", "The aggregation under every presence pattern of candles, offset and interval, with candle values from distinct shapes.",
  "A reference that groups the input by bucket number (integer division, calendar arithmetic for weeks and months written separately) and predicts what is emitted at each input candle.", "mc_strat")
p("C15", "Core statistics of every list of made-up positions to a length, and of every enumerated real run.",
  "Sums, counts and maxima over the fills as defined; annualisation by a separate formula.", "mc_stats")
p("C16", "Extended statistics of every placement of up to two positions on a grid of half periods with every price series, and of real runs.",
  "The equity curve rebuilt period by period from the fills, then mean, deviation and ratios by definition.", "mc_stats")
p("C17", "The same enumeration as C16.", "2-safety: the quick statistics against the full ones of the same run; finiteness of the ratios.", "mc_stats")
p("C18", "`genetics::evolve` with all operator combinations, a small chromosome and *every* random draw answered by the explorer; operators are wrapped so that each generation's population, selection and offspring are seen.",
  "Monitors: one report per generation in order, sizes constant, reported list equals the best of the observed population, and every fitness that is ranked or reported equals the fitness table at the individual's genes.", "mc_ga")
p("C19", "The executions of C18 with elite reinsertion.", "Monitors on consecutive generations: best fitness monotone, k-th best at least the k-th surviving parent, survivors unchanged.", "mc_ga")
p("C20", "Each operator on every pattern of fitness ties of small populations with every draw outcome.",
  "Set-based definitions of who may be picked, and for tournaments the exact distribution (sum over all outcomes of their probabilities) against combinatorial counts.", "mc_ga")
p("C21", "Crossover and mutation of the real parameters at every gene for every pair of variants, nine further shapes by the derive macros, mixing operators with exact distributions.",
  "Individuals as trees of JSON values: exactly the addressed leaf (or the whole part at a variant gene) differs, and came from the other parent or a fresh draw.", "mc_ga")
p("C22", "Generation, crossing and mutation of the real parameters with draws enumerated up to a number of deviations, under contexts that pin one gene, all but one, all variants, or everything; eight further shapes by the derive macros under all small contexts.",
  "Documented ranges and pins checked on the JSON tree, then the individual is constructed and traded. Reachability of every choice over the enumeration.", "mc_ga")
p("C23", "Evolutions with imposed divisions and completion orders of the evaluation, with drawn seeds, on pools, in processes with forced hash seeds (through a preloaded `getrandom`, built with gcc).",
  "2-safety: genes and fitness of every individual of every generation compared bit for bit.", "mc_ga")
p("C24", "The basic evaluation of every strategy and exit kind over every ordered list of symbols, statistics and aggregations; populations in every order and division.",
  "Each symbol's real backtest fetched on its own (terms, candles and interval looked up by the harness) and aggregated by separate formulas.", "mc_ga")
p("C25", "The real parser, printer and JSON reader on every text to a length over the grammar's characters and look-alikes, every sequence of groups, every small interval and boundary sums.",
  "A hand-written automaton with 128-bit arithmetic.", "mc_values")
p("C26", "Rounding of every day to the year 9999 at 8 times of day for 13 intervals; texts from all components, within two edits of valid ones, and all short strings.",
  "A separate proleptic Gregorian calendar and grammar.", "mc_values")
p("C27", "All lists of ordered spans over a small time line and all ranges; all page lengths, limits and intervals to a bound.",
  "Coverage instant by instant.", "mc_values")
p("C28", "All arguments to a bound of the numeric helpers.", "Integer and 128-bit rational arithmetic; definitions.", "mc_values")
p("C29", "The running service behind the controlled data source: every arrival order, every interleaving of two requests, histories of requests in fresh processes, and inputs over every strategy and exit.",
  "Independent backtests with the library per symbol, compared as JSON; the queries the service made are compared as a set.", "mc_web")
p("C30", "The running service with 14 kinds of faults at every query in every arrival order, pairs of faults, interleavings with good requests, outages between any two answers, incomplete data at every place.",
  "Status, content type and message of the error answer, then a good request that has to be answered as ever.", "mc_web")
p("C31", "The running service's optimisations under every arrival order, interleaving and history; all statistics, aggregations and splits; contexts over every strategy and exit.",
  "The library's evolution with the documented operators run with the reported seed in the harness; its improving generations and each individual's statistics are predicted.", "mc_web")
p("C32", "The real serialisation: every combination of variants, every place left out or replaced by other values, names in other spellings, contexts with every gene pinned or freed.",
  "Hand-written shapes of the documented JSON; parameters read back are written again and traded.", "mc_json")
p("C33", "`juno_core`'s client against the controlled data source: every pattern of missing candles at every place, every pair of intervals and symbols, faults at every query.",
  "Instants enumerated one by one: which candle is expected at which time.", "mc_client")

p("C34", "The running service with every place of a request left out, doubled or replaced by 15 values, every short symbol text, every pair of spans, every small size, every cut of the text, every method, path and content type, and odd requests amid good ones.",
  "Field-by-field mirrors of the two requests say what can be read; the library in the harness says what comes of it; then a good request has to be answered as ever.", "mc_web")
p("C35", "The running service asked in two pieces cut at every byte, in chunks of every kind, by every sequence of requests on a connection, from pages of six origins, and by clients that leave at every byte and between any two of the data source's answers, once, often, and amid a good request.",
  "The answer due to the same request alone; the Fetch standard's CORS check as browsers make it; then a good request that has to be answered as ever.", "mc_web")
p("C36", "Every strategy, oscillator, filter, indicator, exit and operator with every combination of parameters at, within and beyond their bounds, nested in one another, over loops of closes; each period at the largest values of its type, and huge populations and generations, in a process of limited memory.",
  "An independent predicate of what makes sense: a panic exactly where it says so, and no position where more candles are needed than there are.", "mc_params")

CONV = """
- A short entry's size is not rounded again when the borrow limit binds (C02).
- Filters: rounding and validity agree only if the minimum is a multiple of the step; values on a dyadic grid are judged exactly (C08).
- Equal upward and downward movements are both kept by DM; DM and DI sum the first n - 1 values and then decay; DEMA's second average is seeded with the first mature value; SMMA and KAMA mature with update n + 1; an immature ADX is 0 (C09-C11).
- Overbought is `>=` the upper bound, oversold `<` the lower one; mid-trend `Previous` passes at once; absent advice counts as the first advice for mid-trend `Ignore`; a vetoed entry becomes Liquidate (C12, C13).
- The aggregation panics by design (a test demands it) if a bucket's last candle is missing and the next input is the next bucket's last candle; the longer interval has to be a multiple of the shorter one (C14).
- Annualised return may be infinite for short runs; whole-number years and a loss of more than everything are not judged; without one full period the annualised return is NaN; trades at or after the last full period are not in the equity curve (C15, C16).
- Fitness reinsertion needs more offspring than the population holds, elite selection at most as many; an odd last offspring wraps around to the first (C18-C20).
- `lerp(a, b, t)` is `t * a + (1 - t) * b`, as its test documents (C06, C28).
- `ceil_multiple` goes through f64, so integers below 2^53; weeks before the first Monday of 1970 cannot be represented; timestamps to the year 9999; Adler-32 over ASCII (C26, C28).
- Spans are ordered and do not overlap (C27).
- Fitness may be minus infinity, which JSON writes as null (C31). Structures given as lists, numeric variant tags and unknown extra fields in JSON are not judged (C32).
- The service does not look at what follows the request's JSON in the body; populations that are huge but might fit into memory are not tried (C34, C36).
- Thresholds of stop losses, take profits and oscillators may be anything, even negative or out of order; MACD's two periods may be equal; a longer interval above a week is refused with the first candle, unless it is the month (C36).
"""

ALARMS = """
The following look like violations at first and are not; the statements and oracles leave room for them.

- C19: with rates that leave no room for a parent nothing can survive; such configurations are counted apart.
- C16, C17: a ratio whose risk is zero but for rounding (all returns equal up to the last bit) divides by noise; it only has to be finite.
- C08: with a minimum that is not a multiple of the step no rounding can always be valid; the statement is restricted.
- C02: the borrowed amount is not rounded by the size filter when the limit binds; the limit is an amount and not an order.
- C26: forms that the text formats leave open (leap seconds, lower case separators) only must not panic or wrap.
- C27: overlapping spans are outside of the domain, no caller produces them.
- C29: a service that asks its queries one by one answers just as correctly as one that asks them at once; the rig follows whatever is in flight.
- C20: of equally fit individuals any may be picked, and only shuffled selection is free in its order.
- C34: a query left over from a request that was broken off belongs to no request; the rig knows them by the serial number of their exchange.
- C35: exchanges' serial numbers are of one width, so that a request has as many bytes each time; a client that leaves may have to wait for others first, and what counts is that the service serves the next.
- C16: equity or a single return that is zero but for rounding may count as either; where that decides a ratio, the ratio only has to be finite.
- C14: weeks start on Mondays and the first one of 1970 is the 5th; days before it have no start of week that a timestamp can hold.
- C32: the last bit of numbers of more than 15 digits is the known finding; everything else about them is still checked.
- Sums over sequences (means, fitness over symbols, equity) may be taken in another order by a refactoring; they are compared to a tolerance, and ties only where the data is exact in binary.
"""

def table(d, tier):
    if tier not in d:
        return ""
    t = d[tier]
    out = []
    for s in t["sections"]:
        out.append(f"  - *{s['name']}*: {s['bound']} ({s['executions']:,} executions{'' if s['exhaustive'] else ', stopped by its time budget'})")
    return "\n".join(out)

body = []
for l in (V / "properties.jsonl").read_text().splitlines():
    d = json.loads(l)
    i = d["id"]
    runs, oracle, b = P[i]
    q = B.get(i, {}).get("quick"); th = B.get(i, {}).get("thorough")
    cost = f"{max(1, q['wall_s'])} s" if q else "?"
    if th:
        n = sum(s["executions"] for s in th["sections"])
        full = all(s["exhaustive"] for s in th["sections"])
        cost += f" quick; {max(1, th['wall_s'])} s thorough, {n:,} executions" + ("" if full else " (within its time budget)")
    body.append(f"""### {i} {d['title']}
*Explored* (`{b}`): {runs}
*Oracle*: {oracle}
*Beyond tests*: {d['why_tests_cant']}
*Cost*: {cost}.

{table(B.get(i, {}), 'quick')}
""")
defects = []
for l in (V / "known_findings.txt").read_text().splitlines():
    m = re.match(r"fixed: property=(C\d\d) (\w+) (.*)", l)
    if m:
        defects.append(f"- {m[1]} (`{m[2]}`): {m[3]}.")
seeds = ["| planted bug | caught by | needs |", "|---|---|---|"]
for f in sorted((V / "seeded").glob("*/meta.json"), key=lambda f: (json.loads(f.read_text())["property"], f.parent.name)):
    m = json.loads(f.read_text())
    also = m.get("also", "")
    seeds.append(f"| {f.parent.name} | {m['property']}{also} | {m['needs']} |")
s = (T / "design.md").read_text()
n = len(body)
for k, v in {"BODY": "\n".join(body), "CONV": CONV.strip(), "ALARMS": ALARMS.strip(), "DEFECTS": "\n".join(defects), "SEEDS": "\n".join(seeds)}.items():
    s = s.replace("{{" + k + "}}", v)
s = s.replace("states 33 properties", f"states {n} properties")
(V / "DESIGN.md").write_text(s)
print(len(s), "bytes")
