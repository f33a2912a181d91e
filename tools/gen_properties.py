#!/usr/bin/env python3
"""Writes properties.jsonl. The single place where property texts are maintained."""
import json, os
P = []
def p(id, title, statement, over, text, tests, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": tests,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })
TR = "juno/src/trading/traders.rs"; TM = "juno/src/trading/mod.rs"
p("C01", "Long positions: every fill is sized, rounded and charged exactly",
  "A long entry spends the whole balance: it buys, at the close of the candle it reacts to, the largest size the symbol's size filter allows for the balance, pays that size times the price rounded down to the quote precision, and is charged the taker fee in base, rounded half up to the base precision. The exit sells the received amount (size minus fee) rounded down by the size filter, for that size times the close rounded down to the quote precision, minus the taker fee in quote rounded half up to the quote precision. The balance after each position is the balance before minus cost plus gain, a position never costs more than the balance it was opened with, and the cost, gain, profit and duration it reports are those of its fills.",
  ["inputs", "histories", "configurations"],
  "every candle history, fee schedule (maker and taker different), filter set, precision pair, starting balance and mix of long and short trades before the position",
  "The tests replay one real candle file with one exchange configuration and compare rounded totals of four strategies to 1e-6; rounding directions, precision mix-ups, fee asset and filter limits are invisible there.",
  [TR, TM, "juno/src/filters.rs", "juno/src/math.rs", "juno/src/lib.rs"],
  [("try_open_long_position / close_long_position", TR), ("LongPosition::{cost,gain,profit}", TM)],
  [("quote", "free balance", TR)], ["TradingSummary.positions of trading::trade"])
p("C02", "Short positions borrow within the limit and pay for what they borrow",
  "A short entry locks the whole balance as collateral and borrows (margin multiplier - 1) times the size-filtered amount the balance would buy at the close, but never more than the borrow limit; it sells the borrowed amount at the close, for the value rounded down to the quote precision minus the taker fee rounded half up to the quote precision. The exit buys back the borrowed amount plus interest for every started interest interval since entry plus the taker fee on both, each rounded half up to the base precision, and pays that size times the close rounded down to the quote precision. The balance after the position is the balance before plus the sale proceeds minus the cost of buying back, and the reported cost (the collateral), gain, profit and duration agree with that.",
  ["inputs", "histories", "configurations"],
  "every candle history, margin multiplier, borrow limit, interest rate and interval, fee schedule, filter set, precision pair and starting balance",
  "The tests only use margin multiplier 2 with one borrow limit and daily interest on one candle file, and check totals to 1e-6.",
  [TR, TM, "juno/src/math.rs"],
  [("try_open_short_position / close_short_position", TR), ("ShortPosition::{cost,gain,profit}", TM)],
  [("borrowed", "base owed", TM), ("collateral", "quote locked at entry", TM)], ["TradingSummary.positions of trading::trade"])
p("C03", "Positions open and close on candle closes, in order, and never overlap",
  "Every position opens at the end time and close price of one candle of the input and closes at the end time and close price of a later one, positions follow one another without overlapping, and no position is opened of a kind that was not allowed. A position still open after the last candle (also one opened there) is closed at that candle's end and close price as cancelled, so that no reported position stays open and none but the last is cancelled. The summary spans from the first candle's start to the last candle's end (an empty input gives an empty summary) and carries the starting balance.",
  ["histories", "configurations", "inputs"],
  "every candle history including gaps, non-zero starts, flat and empty ones, and every combination of allowed position kinds",
  "The tests check aggregate statistics of complete runs over gapless daily candles only.",
  [TR, TM], [("tick and the final cancel in trade", TR)], [("open_position", "at most one open position", TR), ("last_candle", "last processed candle", TR)],
  ["TradingSummary of trading::trade"])
p("C04", "Positions follow the strategy's advice with fixed exit priorities",
  "Only a change of advice acts: repeating or absent advice opens and closes nothing, so after a stop loss or take profit nothing is reopened until the advice changes. An open position is closed for the first of: an advice change against it (the opposite side or liquidate), its stop loss, its take profit; a reversing advice opens the opposite position on the same candle. Trading stops for good as soon as the balance no longer buys the minimum size, and position kinds that are not allowed are simply not opened.",
  ["histories", "configurations"],
  "every sequence of advices, stop loss hits and take profit hits, including several on one candle, and every combination of allowed position kinds",
  "The tests sample four advice histories; coinciding exits, re-entries after exits, reversals and exhausted balances are not singled out.",
  [TR, "juno/src/utils/changed.rs"], [("tick", TR), ("Changed::update", "juno/src/utils/changed.rs")],
  [("previous", "prevailing advice", "juno/src/utils/changed.rs")], ["sequence of positions, their kinds, times and close reasons"])
p("C05", "Stop losses fire exactly when the price falls through their threshold",
  "A basic stop loss fires for a long when the close is at or below the entry close times (1 - up threshold) and for a short when it is at or above the entry close times (1 + down threshold); a trailing one measures from the highest (long) or lowest (short) close since entry, including the entry candle; the combined one fires when either does; the legacy one uses a single threshold, trails only if asked to and never fires at threshold zero; the no-op one never fires. What happened before the position's entry never influences it. In a backtest a position whose advice has not changed is closed as a stop loss on the first candle that fires it.",
  ["histories", "configurations", "inputs"],
  "every sequence of closes before and after entry (re-entries included), every threshold, both position sides and all stop loss kinds",
  "Only the basic stop loss at 10% is used by any test, and only through aggregate statistics.",
  ["juno/src/stop_loss/basic.rs", "juno/src/stop_loss/trailing.rs", "juno/src/stop_loss/basic_plus_trailing.rs", "juno/src/stop_loss/legacy.rs", "juno/src/stop_loss/noop.rs", TR],
  [("StopLoss::{update,clear,upside_hit,downside_hit}", "juno/src/stop_loss/"), ("clear on every flat candle", TR)], [("close_at_position / highest / lowest", "reference closes since entry", "juno/src/stop_loss/")],
  ["StopLoss::upside_hit/downside_hit", "close_reason of reported positions"])
p("C06", "Take profits fire exactly when the price reaches their target",
  "A basic take profit fires for a long when the close is at or above the entry close times (1 + up threshold) and for a short when it is at or below the entry close times (1 - down threshold); the legacy one uses a single threshold for both and never fires at threshold zero; the no-op one never fires. The trending one moves its thresholds between its two bounds by the eased trend strength (average directional index / 100) of the given period: progress 1 selects the first bound and progress 0 the second, fixed at entry when locked and following every candle otherwise. What happened before the entry influences only the trend strength.",
  ["histories", "configurations", "inputs"],
  "every candle sequence before and after entry, every threshold pair, period, lock setting and each of the 31 easings, both position sides",
  "Only the basic take profit at 10% is used by any test; trending take profits and easings are not tested at all.",
  ["juno/src/take_profit/basic.rs", "juno/src/take_profit/legacy.rs", "juno/src/take_profit/noop.rs", "juno/src/take_profit/trending.rs", "juno/src/easing.rs", "juno/src/math.rs", TR],
  [("TakeProfit::{update,clear,upside_hit,downside_hit}", "juno/src/take_profit/"), ("tween", "juno/src/easing.rs")], [("close_at_position", "entry close", "juno/src/take_profit/")],
  ["TakeProfit::upside_hit/downside_hit", "close_reason of reported positions"])
p("C07", "Backtests never look ahead and depend on nothing but their input",
  "Whatever a backtest decides up to a candle is the same whatever candles follow: cutting the history short leaves all positions closed before the cut unchanged and at most cancels the open one at the cut. Running the same backtest again, or concurrently on other threads, gives an identical summary. Shifting all candles in time by a whole number of days (weeks where candles are aggregated) shifts the summary and changes nothing else.",
  ["histories", "configurations", "schedules"],
  "every candle history and every cut point, for every strategy, stop loss and take profit kind, and every time shift",
  "No test compares runs on prefixes, repeated runs or shifted runs.",
  [TR, "juno/src/strategies/", "juno/src/stop_loss/", "juno/src/take_profit/"], [("trade feeds candles one at a time", TR)], [], ["TradingSummary of trading::trade"])
p("C08", "Order filters round to sizes and prices that the exchange accepts",
  "Rounding a size or price down gives zero below the minimum and otherwise the largest multiple of the step that exceeds neither the value nor the maximum; rounding a size up gives zero below the minimum and otherwise the smallest multiple of the step that reaches the value, capped at the largest multiple within the maximum. A zero maximum or step means that there is no such limit. Whatever rounding returns is either zero or passes the validity check when the minimum is a multiple of the step, and then rounding twice changes nothing; a value is valid exactly when it is within the limits and a whole number of steps above the minimum.",
  ["inputs", "configurations"],
  "every value and every combination of minimum, maximum and step, present or absent",
  "There are no tests of the filters.",
  ["juno/src/filters.rs"], [("Price::{round_down,valid}, Size::{round_down,round_up,valid}", "juno/src/filters.rs")], [], ["return values"])
p("C09", "Moving averages equal their definitions",
  "Each moving average equals its definition over the whole price history: simple (mean of the last n), exponential (seeded with the first price), exponential seeded with a simple average of the first n, double exponential, Wilder smoothed (seeded with a simple average), Arnaud Legoux (Gaussian weights) and Kaufman adaptive (2 and 30 period bounds). Once mature, all but the double exponential stay within the range of the prices seen. Choosing one by parameters or by its numeric name code gives the same indicator.",
  ["histories", "inputs", "configurations"],
  "every price sequence, of any length, and every period (with optional smoothing and sigma)",
  "Each average is compared with one recorded series at one period; the simple-average-seeded ones and the name codes not at all.",
  ["juno/src/indicators/"], [("MA::update", "juno/src/indicators/"), ("ma_from_adler32", "juno/src/indicators/mod.rs")], [("ring buffers, sums and counters", "history", "juno/src/indicators/")], ["MA::value"])
p("C10", "Oscillators and directional indicators equal their definitions and ranges",
  "MACD, RSI, stochastic, directional movement (DM), directional indicator (DI), DX and ADX equal their textbook definitions over the whole candle history. RSI, stochastic K and D, DX and ADX always lie within 0 to 100, and the two directional indicators are non-negative. None of them ever becomes infinite or not-a-number on finite prices: where a definition divides by zero because the prices did not move the value is 0.",
  ["histories", "inputs", "configurations"],
  "every candle sequence including completely flat stretches, and every period",
  "Each indicator is compared with one recorded, lively series at one period; flat stretches never occur.",
  ["juno/src/indicators/macd.rs", "juno/src/indicators/rsi.rs", "juno/src/indicators/stoch.rs", "juno/src/indicators/dm.rs", "juno/src/indicators/di.rs", "juno/src/indicators/dx.rs", "juno/src/indicators/adx.rs"],
  [("update", "juno/src/indicators/")], [], ["indicator values"])
p("C11", "Nothing advises before it is mature, and maturity comes when announced",
  "Every indicator and strategy becomes mature exactly after the announced number of updates, stays mature, and the number does not depend on the prices. No strategy gives advice, no oscillator reports overbought or oversold, before it is mature; a filtered strategy gives none before the wrapped ones are mature.",
  ["histories", "configurations"],
  "every candle sequence and all periods, nested combinations included",
  "No test looks at maturity.",
  ["juno/src/indicators/", "juno/src/strategies/"], [("maturity / mature", "juno/src/indicators/, juno/src/strategies/")], [("t", "update counter", "juno/src/strategies/")], ["maturity(), mature(), advice(), overbought(), oversold()"])
p("C12", "Strategies turn indicator values into advice by their published rules",
  "Once mature: double MA advises long or short when the short average is above or below the long one, its thresholded variant when their percentage difference leaves the band, triple MA when all three are ordered and liquidates when the short one crosses back over both others, single MA when price and average slope agree, the four week rule on a new high or low of the window (and liquidates when the price crosses back over its average), and MACD is long when above its signal line and short otherwise. Double MA with stochastic enters in the averages' direction on the favourable half of the stochastic and liquidates on an opposite average or an overbought (long) or oversold (short) stochastic. When no rule applies the previous advice stands.",
  ["histories", "configurations", "inputs"],
  "every candle sequence, every averaging kind and period, and every threshold",
  "Four strategies are tested through aggregate statistics on one candle file; ties, thresholds, liquidation rules and three strategies are untested.",
  ["juno/src/strategies/"], [("Strategy::update", "juno/src/strategies/")], [("advice", "standing advice", "juno/src/strategies/")], ["Signal::advice after every candle"])
p("C13", "Signal filters pass, delay and veto advice as configured",
  "The change filter passes only advice that differs from the prevailing one; the persistence filter passes advice only after it held for the configured number of further updates (optionally repeating the previous one meanwhile); the mid-trend filter, when set to ignore, suppresses advice until it first changes and otherwise passes everything. Two advices combine to none if either is none, to the common one if equal and to liquidate otherwise. A filtered strategy combines its signal's advice through the mid-trend and persistence filters, and with an oscillator turns entries into liquidations unless (enforce) the oscillator confirms them, or when (prevent) it contradicts them.",
  ["histories", "configurations"],
  "every advice sequence, persistence level, policy and oscillator state",
  "There are no tests of the filters or of filtered strategies.",
  ["juno/src/utils/changed.rs", "juno/src/utils/persistence.rs", "juno/src/utils/mid_trend.rs", "juno/src/utils/mod.rs", "juno/src/strategies/sig.rs", "juno/src/strategies/sig_osc.rs"],
  [("Changed / Persistence / MidTrend / combine", "juno/src/utils/"), ("SigOsc::filter", "juno/src/strategies/sig_osc.rs")], [("potential, age, previous", "filter memory", "juno/src/utils/")], ["update() results, Signal::advice"])
p("C14", "Aggregated candles summarise exactly the candles of their bucket",
  "When candles are aggregated to a longer interval, each emitted candle starts at its bucket's calendar-aligned start and has the open of the first, the highest high, the lowest low, the close of the last and the total volume of exactly the input candles in that bucket, gaps or not. Every bucket that has at least one candle and ended is emitted once, in order, as soon as its last candle arrives or, if that one is missing, when the next bucket's first candle arrives. Without a longer interval candles pass through unchanged.",
  ["histories", "configurations"],
  "every pattern of present and missing candles, start alignment and pair of intervals (weeks and months included) except a missing bucket end directly followed by a bucket's last candle, which is refused",
  "The tests cover six hand-made patterns of at most three candles.",
  ["juno/src/utils/buffered_candle.rs", "juno/src/lib.rs", "juno/src/primitives/timestamp.rs"], [("BufferedCandle::buffer", "juno/src/utils/buffered_candle.rs")], [("buffer_candle", "bucket being filled", "juno/src/utils/buffered_candle.rs")], ["BufferedCandle::buffer results", "advice of a filtered strategy with aggregation"])
p("C15", "Core statistics agree with the positions they summarise",
  "Profit, return, mean profit and duration, and the counts of positions, winners (break-even included), losers, stop losses and take profits are those of the position list; gain is cost plus profit, and winners plus losers make all positions. Drawdown after each position is the relative fall of the running balance from its highest so far, starting balance included; maximum and mean drawdown are over all positions and return over maximum drawdown is their quotient, or zero without drawdown. Annualised return compounds the return to a mean year of 31556952 seconds.",
  ["histories", "inputs"],
  "every list of long and short positions with any profits, times and close reasons, the empty list included",
  "The expected values of four runs on one candle file are recorded; drawdown and classification are not checked against a definition.",
  ["juno/src/statistics/core.rs", "juno/src/statistics/mod.rs", "juno/src/math.rs"], [("CoreStatistics::compose, PositionStatistics::compose", "juno/src/statistics/")], [("max_quote", "running peak", "juno/src/statistics/core.rs")], ["CoreStatistics, PositionStatistics"])
p("C16", "Sharpe, Sortino and annualised return are those of the equity curve",
  "The equity curve starts at the starting balance valued at the opening price and is then valued at every period close as quote held plus base held, where a long holds the bought base net of fee and a short owes the borrowed base against the sale proceeds, trades counting in the period in which they happen. Annualised return is 365 times the mean log return; the Sharpe ratio divides it by the annualised deviation of all, the Sortino ratio of the negative log returns. A ratio whose risk is zero or undefined is reported as zero, never as infinite or not-a-number.",
  ["histories", "inputs"],
  "every list of positions on every price series, including flat, loss-free, wiped-out, empty and shorter-than-a-period ones",
  "One test compares two implementations with each other on constant prices and long positions.",
  ["juno/src/statistics/extended.rs", "juno/src/math.rs"], [("get_asset_performance, calculate_statistics", "juno/src/statistics/extended.rs")], [("asset_holdings", "base and quote held", "juno/src/statistics/extended.rs")], ["ExtendedStatistics"])
p("C17", "Fitness statistics equal the reported statistics",
  "The quick profit, return over maximum drawdown, Sharpe ratio and Sortino ratio that rank individuals during optimisation equal the ones in the full statistics of the same run. They never panic, and the ratios are always finite.",
  ["histories", "inputs", "configurations"],
  "every trading summary and price series, including no positions, ruin, constant prices and runs shorter than a day",
  "Two tests compare them on one hand-made summary with constant prices.",
  ["juno/src/statistics/core.rs", "juno/src/statistics/extended.rs"], [("get_profit, get_return_over_max_drawdown, get_sharpe_ratio, get_sortino_ratio", "juno/src/statistics/")], [], ["return values"])
GA = "juno/src/genetics/algorithm.rs"
p("C18", "Evolution keeps its shape and every reported fitness is genuine",
  "An evolution reports one generation for the initial population and one per requested generation, in order, announcing each once; each has the requested number of best individuals (or the population if smaller), ordered from best to worst. The population size never changes, and the individuals reported for a generation are the best of that generation's population. Every individual that is ranked, selected or reported carries the fitness of its own genes as evaluated, whatever selection, crossover, mutation and reinsertion did.",
  ["histories", "configurations", "schedules"],
  "every outcome of every random decision, population size, hall of fame size, generation count and combination of operators",
  "There is no test of the genetic algorithm.",
  [GA, "juno/src/genetics/mod.rs", "juno/src/genetics/reinsertion.rs", "juno/src/genetics/selection.rs"], [("GeneticAlgorithm::evolve / run_generation", GA)], [("parents, offsprings", "sorted populations", GA)], ["Evolution.generations, on_generation, Evaluation::evaluate calls"])
p("C19", "With elite reinsertion the best individual is never lost",
  "With an elite reinsertion that keeps at least one parent, the best fitness never decreases from one generation to the next, and the best individuals of the previous generation survive unchanged with their fitness. More generally the k-th best of the next population is at least as good as the k-th best of the surviving parents.",
  ["histories", "configurations", "schedules"],
  "every outcome of every random decision, every selection operator, selection rate, generation rate and population size that leaves room for a parent",
  "There is no test of the genetic algorithm.",
  ["juno/src/genetics/reinsertion.rs", GA], [("EliteReinsertion::reinsert", "juno/src/genetics/reinsertion.rs")], [], ["Evolution.generations"])
p("C20", "Selection and reinsertion operators pick whom they promise to pick",
  "Elite selection picks the best of the parents (optionally in shuffled order), as many as the rate says; every tournament picks the best of a sample of parents of the configured relative size (at least one); random selection breeds fresh individuals. Elite reinsertion fills the population with the best parents and the configured share of new individuals; fitness reinsertion keeps the best offspring only; pure reinsertion keeps the offspring. The result always has the population size and selection never alters the parents.",
  ["histories", "configurations", "inputs"],
  "every population with ties in fitness, every rate, and every outcome of every random decision",
  "There is no test of the operators.",
  ["juno/src/genetics/selection.rs", "juno/src/genetics/reinsertion.rs"], [("Selection::select", "juno/src/genetics/selection.rs"), ("Reinsertion::reinsert", "juno/src/genetics/reinsertion.rs")], [], ["operator results"])
p("C21", "Crossover and mutation act on exactly the genes they draw",
  "Crossing two individuals at a gene swaps that gene and nothing else; genes of differing variants are left alone except the variant gene itself, which swaps the whole part. Mutating a gene redraws that gene and nothing else, the variant gene redrawing the whole part; every gene of an individual can be reached. Crossover and mutation visit every gene once and act with the configured probability (0 never, 1 always), and never create or lose a gene value between the two parents in crossover.",
  ["inputs", "configurations", "histories"],
  "every pair of variants, every gene index, every probability and every outcome of every random decision",
  "Tests check three small hand-made structs and one enum at a few indexes.",
  ["juno_derive/src/macros/derive_chromosome.rs", "juno_derive/src/macros/derive_chromosome_enum.rs", "juno/src/genetics/crossover.rs", "juno/src/genetics/mutation.rs", TM], [("derive(Chromosome), derive(ChromosomeEnum)", "juno_derive/src/macros/"), ("UniformCrossover / UniformMutation", "juno/src/genetics/")], [], ["genes before and after"])
p("C22", "Generated individuals respect the pinned genes and can always be traded",
  "Every gene pinned by the search context has the pinned value in every individual that is generated or mutated, at any nesting depth, and the trading interval is always one of the offered ones. Every generated, crossed or mutated individual lies within its documented parameter ranges (short periods below long ones, lower bounds below upper ones) and can be constructed and traded without panicking. Free genes can take every admissible choice: each variant, easing, policy and interval can occur.",
  ["configurations", "histories", "inputs"],
  "every context (any subset of pinned genes) and every outcome of every random decision, extremes of the ranges included",
  "Tests generate individuals of small hand-made structs from a few seeds.",
  ["juno_derive/src/macros/", "juno/src/strategies/", "juno/src/stop_loss/", "juno/src/take_profit/", TM, "juno/src/easing.rs", "juno/src/utils/mid_trend.rs", "juno/src/indicators/mod.rs"], [("Chromosome::generate / mutate", "juno_derive/src/macros/")], [], ["generated individuals"])
p("C23", "The same seed gives the same evolution, everywhere",
  "For a given seed, context and data the evolution is identical - every individual, gene for gene and bit for bit, in every generation - in every process, with any number of worker threads, under any completion order of the evaluations and whatever the process-wide hash seeds are. Without a seed the drawn seed is reported and reproduces the evolution.",
  ["schedules", "configurations", "histories"],
  "every seed, thread count, scheduling of evaluation work and hash seed",
  "No test runs an evolution twice; randomised hash iteration order differs per process only.",
  [GA, "juno/src/trading/evaluation.rs", "juno/src/easing.rs", "juno/src/genetics/"], [("StdRng::seed_from_u64", GA), ("par_iter_mut in BasicEvaluation", "juno/src/trading/evaluation.rs")], [], ["Evolution.generations, Evolution.seed"])
p("C24", "Fitness is the aggregate of the chosen statistic over the training symbols",
  "An individual's fitness is the sum, over the training symbols, of the chosen statistic of its own backtest on that symbol's candles of its own interval, with that symbol's fees, filters and borrow terms, margin multiplier 2 and both sides allowed. Linear aggregation adds the values; logarithmic aggregation adds log10(v + 1) for gains and subtracts 10^(1 - v) for losses (v scaled by ten in the factored variant), so it always ranks a better symbol result higher. It depends on neither the rest of the population, nor its order, partitioning or parallel scheduling.",
  ["schedules", "configurations", "inputs", "histories"],
  "every population, ordering and division of the work among threads, every statistic, aggregation and set of symbols",
  "There is no test of the evaluation.",
  ["juno/src/trading/evaluation.rs"], [("BasicEvaluation::evaluate", "juno/src/trading/evaluation.rs")], [("symbol_ctxs", "per symbol data", "juno/src/trading/evaluation.rs")], ["Individual.fitness"])
p("C25", "Interval text means what it says and malformed text is refused",
  "Printing an interval and parsing the text gives the same interval back, for every interval, and the text uses each unit at most once, largest first (0 prints as 0ms). Parsing adds up groups of a decimal number and a unit (y, M, w, d, h, m, s, ms; a mean year and month for y and M); anything else - empty text, unknown units, stray characters, numbers too large - is an error, never a panic or a silently wrong interval. Reading intervals from JSON accepts such text or a number of milliseconds.",
  ["inputs"],
  "every interval and every text",
  "Tests parse four and print four well-formed examples.",
  ["juno/src/primitives/interval.rs"], [("Interval::{from_str,fmt}, Deserialize", "juno/src/primitives/interval.rs")], [], ["parse and print results"])
p("C26", "Timestamps round to calendar boundaries and print as what they parse from",
  "Rounding a timestamp down or up to an interval below a week gives the nearest multiple at or below or above it, to a week the Monday 00:00 UTC and to a month the first of the month 00:00 UTC; a boundary rounds to itself, and the result never passes the next boundary. Printing a timestamp gives its UTC date and time, which parses back to the same timestamp; a plain date means its midnight, and offsets are honoured. Malformed or pre-1970 text is an error, never a panic or a wrapped-around value.",
  ["inputs"],
  "every timestamp (from the first Monday on for weeks), in particular around every day, month, year and leap day boundary, and every text",
  "Tests check four instants per direction, none on a boundary.",
  ["juno/src/primitives/timestamp.rs", "juno/src/math.rs"], [("Timestamp::{floor,ceil,from_str,fmt}", "juno/src/primitives/timestamp.rs")], [], ["results"])
p("C27", "Span arithmetic neither loses, repeats nor invents time",
  "Merging spans in order joins those that touch and changes nothing about which instants are covered. The missing spans of a range together with the existing ones cover the range exactly once: they lie within the range, touch no existing span's interior, are ordered, non-empty and maximal. Paging a range yields consecutive pages from its start to its end without gaps or overlaps, each at most the limit of intervals long.",
  ["inputs"],
  "every list of ordered, non-overlapping spans, every range and every interval and page limit",
  "Tests check three examples; paging is untested.",
  ["juno/src/utils/mod.rs"], [("merge_adjacent_spans, generate_missing_spans, page", "juno/src/utils/mod.rs")], [], ["results"])
p("C28", "Numeric helpers are exact at their edges",
  "Multiples round down and up to the nearest multiple (plus offset) and leave multiples alone; decimal rounding goes down, or half up, at every precision from 0 to 12; mean and standard deviation are the population ones, and not-a-number only for no data. Annualising compounds over a mean year, giving 0 for no duration or an impossible return; interpolation gives its ends at 1 and 0. Pairs, minimum and maximum of a sequence are complete, the checksum is Adler-32, and symbols split at the dash into base and quote.",
  ["inputs"],
  "every value, multiple, offset, precision and sequence",
  "Tests check one or two ordinary values each.",
  ["juno/src/math.rs", "juno/src/itertools.rs", "juno/src/primitives/symbol.rs"], [("math, itertools, symbol helpers", "juno/src/math.rs")], [], ["results"])
AX = "juno_axum/src/routes/"
p("C29", "The backtest service answers with each symbol's own backtest",
  "A backtest request is answered with exactly one entry per distinct requested symbol, and each entry holds the statistics of trading that symbol's candles with that symbol's fees, filters and borrow terms. The service asks the data source once for the exchange, once per symbol for candles of the requested interval and span, and once for daily prices, in dollars, of all assets involved. The answer does not depend on the order in which the data source's answers arrive or on what other requests are being served.",
  ["schedules", "configurations", "inputs"],
  "every completion order of the upstream requests, set and order of symbols (duplicates included) and interleaving of requests",
  "No test touches the service; only a helper that groups results has one.",
  [AX + "backtest.rs", "juno_axum/src/exchange.rs", "juno/src/clients/juno_core.rs"], [("gather_exchange_info_candles_prices", "juno_axum/src/exchange.rs"), ("par_backtest", AX + "backtest.rs")], [], ["HTTP responses, upstream requests"])
p("C30", "Upstream failures become error answers and leave the service working",
  "If the data source answers any of a request's queries with an error status, with malformed or incomplete data, or not at all, the service answers that request with status 500 and a JSON message - the data source's own message for client errors - and never with made-up results. It does so whichever of the queries fails, also when several do, and in whatever order they complete. Requests served meanwhile or afterwards are unaffected.",
  ["fault_sequences", "schedules"],
  "every placement of every kind of upstream failure in every completion order, followed by good requests",
  "No test touches the service or the client.",
  ["juno_axum/src/error.rs", "juno_axum/src/exchange.rs", AX, "juno/src/clients/juno_core.rs"], [("error_for_juno_status", "juno/src/clients/juno_core.rs"), ("Error::into_response", "juno_axum/src/error.rs")], [], ["HTTP responses"])
p("C31", "The optimisation service reports real generations and reproducible results",
  "An optimisation runs the library's evolution with elite selection, uniform crossover (0.5) and mutation (0.25) and elite reinsertion (0.75, 0.5). It reports the initial generation and exactly those later ones in which some place of its best list improved on the best so far at that place, each under its true generation number. Every reported individual comes with the statistics of backtesting it on every training and validation symbol, and its fitness is the chosen aggregate over the training symbols only. The reported seed, sent back, reproduces the same report; a given seed is used as is.",
  ["configurations", "histories", "schedules"],
  "every seed, population and generation count, statistic, aggregation, symbol split and upstream completion order",
  "No test touches the service.",
  [AX + "optimize.rs", "juno_axum/src/exchange.rs"], [("par_optimize", AX + "optimize.rs")], [("best_fitnesses", "best per place so far", AX + "optimize.rs")], ["HTTP responses"])
p("C32", "Parameters survive JSON, and documented shapes are accepted",
  "Trading parameters of every variant written as JSON and read back are the same parameters and trade identically, and so are positions, candles and exchange descriptions. Intervals and timestamps may be given as numbers or text, omitted optional parameters take their defaults, context entries pin exactly their gene and omitted ones leave it free. Unknown variants, missing required parameters and values of the wrong type are errors rather than defaults.",
  ["inputs", "configurations"],
  "every combination of strategy, stop loss, take profit, nested variants, and each omitted, extra or mistyped field",
  "No test reads or writes parameters as JSON.",
  ["juno/src/trading/mod.rs", "juno/src/strategies/", "juno/src/stop_loss/", "juno/src/take_profit/", "juno/src/indicators/mod.rs", "juno/src/primitives/", "juno_derive/src/macros/"], [("serde derives and attributes", "juno/src/")], [], ["serialised and parsed parameters"])
p("C33", "The data source's client asks and answers exactly, or fails",
  "Each query of the data source's client is one POST to its own path below the configured address and asks for exactly what it was given; it gives back exactly what the data source answered: every candle in order, gaps as none, every interval and every map entry. A client error becomes an error with its status, address and the data source's message; any other failure - other error statuses, malformed, mistyped or truncated data, broken connections - is an error as well, and never a made-up or partial result. Queries in flight at once each get their own answer in whatever order these arrive, and a failed query leaves the client working.",
  ["inputs", "schedules", "fault_sequences"],
  "every query with every request and answer, every arrival order of the answers to queries in flight at once, and every sequence of good and failing queries",
  "No test touches the client.",
  ["juno/src/clients/juno_core.rs", "juno/src/lib.rs"], [("Client::{get_exchange_info,list_candles,list_candles_fill_missing_with_none,list_candle_intervals,map_asset_prices}", "juno/src/clients/juno_core.rs"), ("error_for_juno_status", "juno/src/clients/juno_core.rs")], [], ["results of the client's methods, requests at the data source"])
p("C34", "Requests that make no sense are refused and do no harm",
  "Every request to the service is answered, whatever it says. One that is not JSON of the documented shape, goes to an unknown path, or has the wrong method or content type gets a status from 400 to 499, and the data source is not asked anything. One that can be read but cannot be carried out - a symbol that is none, a span, interval, period or population that makes no sense, data that is not there - gets an error status with a JSON message, never invented results. Anything else gets the same answer as ever: one odd value next to sensible ones does not change what the others mean. Requests being served meanwhile and later ones are unaffected.",
  ["inputs", "histories", "schedules"],
  "every body, path, method and content type, with every value in every place, followed by or amid good requests",
  "No test touches the service.",
  [AX, "juno_axum/src/exchange.rs", "juno_axum/src/error.rs", "juno_axum/src/main.rs"], [("Params of both routes", AX), ("catch_unwind", AX), ("Error::into_response", "juno_axum/src/error.rs")], [], ["HTTP responses, upstream requests"])
p("C35", "Answers do not depend on how and from where requests are made",
  "A request to the service is answered the same whether it arrives at once or in pieces, with its length announced or in chunks, on a connection of its own or after or together with others on one, where answers come in the order of the requests. Pages of any origin may use the service: preflights for any origin, path, method and header fields are granted without asking the data source anything, and every answer, errors included, may be read by pages of any origin. A client that goes away, halfway through its request or before it has the answer, harms nobody: a request that never arrived whole is not acted upon, and requests being served meanwhile and later ones are unaffected, however often that happens.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "every request, division into pieces, sequence of requests on a connection, origin, and point at which clients go away, however often, alone or amid good requests",
  "No test touches the service.",
  ["juno_axum/src/main.rs", AX, "juno_axum/src/exchange.rs"], [("CorsLayer over all routes", "juno_axum/src/main.rs"), ("handlers that may be dropped while they wait", AX)], [], ["HTTP responses and their header fields, upstream requests"])
p("C36", "Parameters that make no sense are refused, all others can be run",
  "Constructing or trading with parameters that make no sense is refused by a panic and never yields results: an indicator's or strategy's period of zero, a smoothing factor outside (0, 1], an offset outside (0, 1), a sigma of zero, averages whose periods do not strictly ascend (for MACD: descend), thresholds of two averages outside (0, 1) and [-1, 0), a longer interval shorter than the candles', wherever these are nested; a population below two, a best list below one, an operator's rate outside of its range. Any other parameters are accepted and run on any candles without a panic; periods, levels, generations and best lists as large as their types allow neither take memory in advance nor wrap around, so a strategy that needs more candles than there are gives no advice. A population that cannot fit into memory is refused.",
  ["inputs", "configurations"],
  "every strategy, filter, oscillator, exit, indicator and operator with every combination of parameters, on every candle sequence",
  "The tests construct each indicator and strategy with usual parameters only.",
  ["juno/src/indicators/", "juno/src/strategies/", "juno/src/take_profit/trending.rs", "juno/src/utils/buffered_candle.rs", "juno/src/genetics/"], [("assertions in constructors", "juno/src/indicators/"), ("assertions in constructors", "juno/src/strategies/"), ("GeneticAlgorithm::evolve and operators' constructors", "juno/src/genetics/")], [], ["panics and results of constructors, trade and evolve"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
