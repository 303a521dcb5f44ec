#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and props.py."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
I, H, C, S = 'inputs', 'histories', 'configurations', 'schedules'
R = []
def P(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    R.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
T = 'juno/src/trading/'
P('T01', 'Trading ledger chronology',
  'For every candle series and configuration, the positions a backtest reports are in time order and never overlap, each opens and closes exactly at the end of one of the given candles at that candle\'s closing price, and closes after it opens. The summary starts at the first candle, ends when the last candle ends, keeps the starting quote, and only the last position may be left to be cancelled, at the very end of the range.',
  (I, H, C), 'every finite candle series (with gaps), every strategy, stop loss, take profit, fee and filter setting within the bounds', 'the tests run four fixed strategies over one recorded daily series and compare summary statistics only',
  [T + 'traders.rs', T + 'mod.rs'], [('trade loop', T + 'traders.rs'), ('position close', T + 'mod.rs')], ['TradingSummary returned by trade()'], [('open position', 'at most one at a time', T + 'traders.rs')])
P('T02', 'Money is conserved',
  'Every fill satisfies quote = price x size rounded down to the quote precision, every fee is the taker fee on the received asset rounded half up to its precision, a long sells exactly what it bought less its fee within the lot filter, and a short sells exactly what it borrowed. Cost, gain and profit of each position follow from its fills, and the cash available to each next position is the starting quote plus the profits so far.',
  (I, H, C), 'every price path, fee, lot filter, precision and margin within the bounds', 'no test recomputes fills or the running cash', [T + 'traders.rs', T + 'mod.rs', 'juno/src/math.rs', 'juno/src/filters.rs'],
  [('open/close long/short position', T + 'traders.rs'), ('round_down/round_half_up', 'juno/src/math.rs')], ['fills and accessors of each position'])
P('T03', 'Position size respects funds, filters and borrow limit',
  'A long buys the largest size the lot filter admits for the cash at hand and never spends more than that cash; its size and its price are positive, the size within the filter\'s minimum and maximum. A short borrows (margin - 1) times the size its collateral would buy, never beyond the borrow limit, and only if the collateral buys at least the minimum.',
  (I, C), 'every cash amount, price, filter, margin and borrow limit within the bounds', 'no test checks sizes against filters or the borrow limit', [T + 'traders.rs', 'juno/src/filters.rs'],
  [('size computation and borrow cap', T + 'traders.rs'), ('Size::round_down', 'juno/src/filters.rs')], ['open fills, borrowed and collateral'])
P('T04', 'Exits: when and why a position closes',
  'An open position closes on the first candle that calls for it, and the recorded reason is the first that applies of: strategy (the advice turned against the position or to liquidation), stop loss, take profit. A position nothing calls to close is cancelled at the end of the data.',
  (I, H, C), 'every price path and every stop loss and take profit kind within the bounds', 'tests run one stop loss and take profit setting over one recorded series; which rule fires first depends on the path', [T + 'traders.rs', 'juno/src/stop_loss/mod.rs', 'juno/src/take_profit/mod.rs'],
  [('tick', T + 'traders.rs'), ('clear on candles without a position', T + 'traders.rs')], ['close_time and close_reason of positions'])
P('T05', 'No look-ahead',
  'What a backtest decides up to a candle never depends on later candles: running it on any prefix of the series yields the same positions, with identical times, prices, sizes and fees, for everything decided by the end of the prefix; a position still open there is only marked cancelled.',
  (I, H), 'every candle series and every proper prefix of it within the bounds', 'tests run whole series only', [T + 'traders.rs', 'juno/src/strategies/mod.rs', 'juno/src/indicators/mod.rs'], [('candle-by-candle updates', T + 'traders.rs')], ['trade() on prefixes'])
P('T06', 'Entries follow changed advice on enabled sides only',
  'A backtest opens a position exactly when it is flat, the strategy\'s advice has just changed to long or short (repeating the same advice is no new signal), and that side is enabled; the side follows the advice. Trading may reopen on the very candle that closed a position, and ends when the cash can no longer buy the minimum size or the smallest unit of the quote asset\'s worth.',
  (I, H, C), 'every price path, both side switches, every strategy kind within the bounds', 'no test covers side switches or repeated advice in the trading loop', [T + 'traders.rs', 'juno/src/utils/changed.rs'],
  [('Changed filter', 'juno/src/utils/changed.rs'), ('tick', T + 'traders.rs')], ['open_time and side of positions'])
P('T07', 'Short interest',
  'Closing a short buys back the borrowed size, plus interest on it for every started interest interval between opening and closing (rounded to the base precision), plus the taker fee on that amount; a position closed as soon as opened owes no interest.',
  (I, C), 'every holding time in candles, interest rate and interest interval within the bounds', 'no test closes a short with interest', [T + 'traders.rs', 'juno/src/math.rs'], [('interest on close', T + 'traders.rs'), ('ceil_multiple', 'juno/src/math.rs')], ['close fill of shorts'])
P('R01', 'Stop loss rules',
  'After being cleared at a candle, a stop loss reports an upside (long) hit exactly when the latest close is at or below its threshold fraction under the reference price, and a downside (short) hit exactly when it is at or above the threshold fraction over it; the reference is the close at the clear for basic rules and the highest (lowest) close since then for trailing ones, and the combined rule hits when either part does. Noop never hits, and nothing before the clear matters.',
  (I, H, C), 'every price history, clear point and threshold within the bounds', 'each kind has at most one fixed example', ['juno/src/stop_loss/mod.rs', 'juno/src/stop_loss/basic.rs', 'juno/src/stop_loss/trailing.rs', 'juno/src/stop_loss/basic_plus_trailing.rs', 'juno/src/stop_loss/legacy.rs'],
  [('clear/update/hit', 'juno/src/stop_loss/*.rs')], ['upside_hit, downside_hit'])
P('R02', 'Take profit rules',
  'After being cleared at a candle, a take profit reports an upside (long) hit exactly when the latest close is at or above its threshold fraction over the clearing close, and a downside (short) hit exactly when it is at or below the threshold fraction under it; the trending rule moves its threshold from its first (minimum) setting without any trend to its second (maximum) setting at the strongest trend, along its easing curve and never outside them for curves that do not overshoot, and a locked threshold stays as it was at the clear. Noop never hits, and nothing before the clear changes a non-trending rule.',
  (I, H, C), 'every price history, clear point and threshold within the bounds', 'each kind has at most one fixed example', ['juno/src/take_profit/mod.rs', 'juno/src/take_profit/basic.rs', 'juno/src/take_profit/legacy.rs', 'juno/src/take_profit/trending.rs'],
  [('clear/update/hit', 'juno/src/take_profit/*.rs')], ['upside_hit, downside_hit'])
P('R03', 'Easing curves',
  'Each of the 31 easing curves computes the function it is named after for every progress in 0..1, starts at 0 and ends at 1, is asked for and told by its own name in JSON, and (elastic and back curves aside) never leaves 0..1.',
  (I, C), 'every progress in [0, 1] and every curve', 'no test calls most of the curves', ['juno/src/easing.rs'], [('table of curves', 'juno/src/easing.rs')], ['tween()'])
K = 'juno/src/indicators/'
P('I01', 'Moving averages equal their definitions',
  'After any price series, the simple, exponential (both variants), double exponential, smoothed, Kaufman adaptive and Arnaud Legoux moving averages hold the value their textbook definitions give for that series, whatever the period and whatever came before the window for the windowed ones.',
  (I, H), 'every finite price series and small period within the bounds', 'tests replay one recorded series per indicator from a YAML file', [K + f for f in ('sma.rs', 'ema.rs', 'ema2.rs', 'dema.rs', 'smma.rs', 'kama.rs', 'alma.rs')], [('update', K + '*.rs')], ['MA::value'])
P('I02', 'Oscillators and trend indicators equal their definitions',
  'After any candle series, RSI, stochastic, MACD, directional movement, directional indicators, DX and ADX hold the value their textbook definitions give.',
  (I, H), 'every finite candle series and small period within the bounds', 'tests replay one recorded series per indicator', [K + f for f in ('rsi.rs', 'stoch.rs', 'macd.rs', 'dm.rs', 'di.rs', 'dx.rs', 'adx.rs')], [('update', K + '*.rs')], ['value fields'])
P('I03', 'Indicators mature exactly when they say',
  'Every indicator reports itself mature after exactly the announced number of updates, never before and always from then on, and from then on its value is defined.',
  (I, C), 'every period and update count within the bounds', 'tests look at one period per indicator', [K + 'mod.rs'], [('maturity/mature', K + '*.rs')], ['maturity(), mature()'])
P('I04', 'Indicators stay bounded and finite',
  'For every series of positive finite candles, including flat stretches, once mature every indicator value is finite; averages stay within the range of the prices seen, and RSI, stochastic, DI, DX and ADX stay within 0..100.',
  (I, H), 'every finite price series, including constant ones, within the bounds', 'recorded series contain no flat windows', [K + 'mod.rs'], [('update', K + '*.rs')], ['value fields'])
Z = 'juno/src/strategies/'
P('S01', 'No advice before maturity',
  'No strategy gives any advice before it is mature; it matures after exactly the announced number of candles and stays mature.',
  (I, H, C), 'every candle series and strategy within the bounds', 'tests feed a few fixed series per strategy', [Z + 'mod.rs'], [('maturity/mature/advice', Z + '*.rs')], ['advice(), mature(), maturity()'])
P('S02', 'Strategies advise according to their documented rules',
  'On every candle each strategy\'s advice is the one its rule (crossovers, trend alignment, breakouts, thresholds, with hold-over of the previous advice) gives for the indicator values so far.',
  (I, H, C), 'every candle series and strategy within the bounds', 'tests feed a few fixed series per strategy', [Z + f for f in ('single_ma.rs', 'double_ma.rs', 'double_ma_2.rs', 'triple_ma.rs', 'four_week_rule.rs', 'macd.rs', 'rsi.rs', 'stoch.rs', 'double_ma_stoch.rs')], [('update', Z + '*.rs')], ['advice()'])
P('S03', 'Filtered strategies compose signal, oscillator, persistence and mid-trend policy',
  'A filtered strategy passes its signal\'s advice on only when the oscillator allows it (per the chosen filter mode), after the advice has persisted for the configured number of candles, and a trend already running at maturity is taken or ignored according to the mid-trend policy.',
  (I, H, C), 'every candle series and filter mode within the bounds', 'one fixed series per case', [Z + 'sig.rs', Z + 'sig_osc.rs', 'juno/src/utils/persistence.rs', 'juno/src/utils/mid_trend.rs'], [('update', Z + 'sig_osc.rs')], ['advice()'])
U = 'juno/src/utils/'
P('U01', 'Advice filters keep their contracts',
  'The changed filter emits an advice only when it differs from the last one seen and is not empty; persistence emits an advice only after it has been repeated for the configured number of further steps; the mid-trend filter drops or keeps only the advice already running at the start; combining advices yields none if any is none, the common value if all agree and liquidation otherwise.',
  (H, C), 'every advice history within the bounds', 'a handful of example sequences', [U + 'changed.rs', U + 'persistence.rs', U + 'mid_trend.rs', U + 'mod.rs'], [('update', U + '*.rs')], ['returned advice'])
P('U02', 'Candle aggregation is exact',
  'Buffering small candles into a larger interval yields, for every series with or without gaps, candles whose times are multiples of the larger interval, whose open, high, low, close and volume are those of exactly the small candles inside, each small candle being counted once and in order.',
  (I, H), 'every candle series and gap pattern within the bounds', 'examples of single gaps only', [U + 'buffered_candle.rs', 'juno/src/lib.rs'], [('buffer', U + 'buffered_candle.rs')], ['buffer() results'])
P('U03', 'Span arithmetic partitions the requested range',
  'Merging adjacent spans preserves the covered set and leaves no two adjacent spans; missing spans together with existing spans cover exactly the requested range with no overlap between missing and existing; paging a range yields consecutive chunks of at most the limit that cover it exactly.',
  (I,), 'every list of up to N sorted spans and every range', 'a few fixed lists', [U + 'mod.rs'], [('merge_adjacent_spans, generate_missing_spans, page_limit', U + 'mod.rs')], ['returned spans'])
M = 'juno/src/primitives/'
P('M01', 'Flooring and ceiling are exact',
  'Rounding an integer or a timestamp down (up) to a multiple yields the largest (smallest) multiple not above (below) it, for every value that does not overflow; calendar weeks start on Mondays and months on the first.',
  (I,), 'every 64-bit value and interval within the bounds', 'a few dates', [M + 'timestamp.rs', 'juno/src/math.rs'], [('floor/ceil', M + 'timestamp.rs'), ('floor_multiple/ceil_multiple', 'juno/src/math.rs')], ['returned values'])
P('M06', 'Symbols split at their first dash',
  'A symbol splits at its first dash into base and quote asset, whatever text surrounds it; the assets of several symbols are the base and quote of each in order.',
  (I,), 'every printable text of the lengths within the bounds', 'tests split one symbol', ['juno/src/primitives/symbol.rs'], [('assets, base_asset, quote_asset, iter_assets', 'juno/src/primitives/symbol.rs')], ['the returned texts'])
P('M02', 'Interval text round trip',
  'Every interval prints as text that parses back to the same interval; parsing any other text is either an error or the documented sum of its components, and never a crash.',
  (I,), 'every interval below the bound, every short string', 'a few examples', [M + 'interval.rs'], [('Display/FromStr', M + 'interval.rs')], ['to_string, from_str'])
P('M03', 'Rounding and filters',
  'Rounding to a precision returns a multiple of 10^-precision no further than one unit from the input (never above it when rounding down, nearest when rounding half up), for every precision an asset can have; price and size filters return values within their limits on a step, and accept exactly the values they would leave unchanged.',
  (I, C), 'every value, precision and filter within the bounds', 'fixed examples', ['juno/src/math.rs', 'juno/src/filters.rs'], [('round_down/round_half_up', 'juno/src/math.rs'), ('Size/Price', 'juno/src/filters.rs')], ['returned values'])
P('M04', 'Moving average codes are stable and distinct',
  'The checksum used to name moving averages is Adler-32 for every string, and distinct moving averages have distinct codes.',
  (I,), 'every byte string up to the bound', 'one string', ['juno/src/math.rs', 'juno/src/indicators/mod.rs'], [('adler32', 'juno/src/math.rs')], ['adler32'])
P('M05', 'Timestamp text round trip',
  'Every timestamp prints as UTC text that parses back to the same timestamp to the printed precision; other text is an error and never a crash.',
  (I,), 'every timestamp within the bound', 'a few dates', [M + 'timestamp.rs'], [('Display/FromStr', M + 'timestamp.rs')], ['to_string, from_str'])
G = 'juno/src/genetics/'
P('G01', 'Evolution keeps its invariants',
  'Evolution yields one generation per step plus the initial one, every generation has the configured population size, every individual\'s reported fitness is the evaluation of exactly that chromosome, each generation is ordered best first, and with elitist reinsertion the best individual is never lost.',
  (I, C, H), 'every fitness landscape and random seed within the bounds', 'no test of the algorithm loop', [G + 'algorithm.rs', G + 'reinsertion.rs', G + 'selection.rs'], [('evolve/run_generation', G + 'algorithm.rs')], ['Evolution/Generation'])
P('G02', 'Same seed, same evolution',
  'Running an evolution twice with the same configuration and seed gives identical generations and individuals, within one process and across processes.',
  (I, C, S), 'every seed', 'tests run in one process with one hash seed', [G + 'algorithm.rs', 'juno/src/easing.rs'], [('StdRng::seed_from_u64', G + 'algorithm.rs')], ['Evolution'])
P('G03', 'Crossover and mutation stay within the parents and the context',
  'Uniform crossover exchanges genes position by position, so every pair of offspring genes is the pair of parent genes in some order and nothing else changes; mutation changes only genes the context leaves free; genes fixed by the context keep their value.',
  (I, C), 'every chromosome and random choice', 'a few seeds', [G + 'crossover.rs', G + 'mutation.rs', G + 'mod.rs', 'juno_derive/src/macros/derive_chromosome.rs'], [('cross/mutate', G + '*.rs')], ['chromosomes'])
P('G04', 'Generated parameters are valid',
  'Every randomly generated trading configuration is one the trader accepts: periods and thresholds lie in their documented ranges, ordered periods are ordered, and constructing and running it does not crash.',
  (I, C), 'every sequence of random draws', 'a few seeds', [Z + 'mod.rs', 'juno/src/stop_loss/mod.rs', 'juno/src/take_profit/mod.rs', T + 'mod.rs'], [('generate', '*.rs')], ['TradingParams::generate'])
P('G05', 'Selection and reinsertion prefer fitter individuals',
  'Selection returns the requested number of members of the population; elitist selection returns the fittest, tournament selection returns in each round the fittest of the drawn contenders, and elitist reinsertion keeps the fittest parents.',
  (I, C), 'every fitness vector and random choice', 'a few examples', [G + 'selection.rs', G + 'reinsertion.rs'], [('select', G + 'selection.rs'), ('reinsert', G + 'reinsertion.rs')], ['select, reinsert'])
Q = 'juno/src/statistics/'
P('C01', 'Statistics follow their definitions',
  'Profit, return on investment, annualised return, drawdowns, position counts, win/loss splits and durations reported for a trading summary equal what their definitions give for its positions.',
  (I, H), 'every list of positions within the bounds', 'one recorded list of positions', [Q + 'core.rs', Q + 'extended.rs'], [('compose/calculate_statistics', Q + '*.rs')], ['Statistics'])
P('C02', 'Shortcut statistics equal the full statistics',
  'The single-figure functions used as evaluation targets return the same number as the corresponding field of the full statistics of the same trading summary.',
  (I, H), 'every list of positions within the bounds', 'one example', [Q + 'core.rs', Q + 'extended.rs', Q + 'mod.rs'], [('get_* functions', Q + '*.rs')], ['get_* and Statistics'])
P('C03', 'Statistics never crash',
  'For every trading summary a backtest can produce, including no positions, only winners, only losers and constant returns, computing the statistics and each single figure returns normally, the Sharpe and Sortino ratios are finite and no figure is undefined (NaN).',
  (I, H), 'every list of positions within the bounds', 'only recorded data', [Q + 'core.rs', Q + 'extended.rs'], [('calculate_statistics', Q + 'extended.rs')], ['Statistics'])
P('E01', 'Fitness aggregation over symbols',
  'The fitness of a configuration is the sum over the requested symbols of the chosen statistic of its backtest on that symbol (with the symbol\'s own candles, fees, filters and borrow limit, long and short at margin 2), each transformed by the chosen rule (linear; shifted logarithm of gains and exponential penalty of losses; the same after a factor of ten). It is a number, and does not depend on hash order or the parallel schedule.',
  (I, C, S), 'every candle series, exchange setting, statistic and aggregation within the bounds', 'no test evaluates a population', [T + 'evaluation.rs', Q + 'mod.rs'], [('BasicEvaluation::evaluate, EvaluationAggregation', T + 'evaluation.rs')], ['evaluate'])
X = 'juno_axum/src/'
P('A01', 'Backtest service',
  'A backtest request answers with exactly one set of statistics per distinct requested symbol, whatever their order and repetition: those of trading that symbol\'s own candles of the requested interval with the requested parameters and quote, long and short, at margin multiplier 2, under that symbol\'s own fees, filters and borrow terms of its base asset, valued at the daily prices. The order in which the core answers does not matter.',
  (I, C, S), 'every symbol list, price and order of answers within the bounds', 'the only test of the services covers one helper', [X + 'routes/backtest.rs', X + 'exchange.rs', X + 'main.rs'], [('post, par_backtest', X + 'routes/backtest.rs'), ('gather_exchange_info_candles_prices, map_of_maps', X + 'exchange.rs')], ['the answer to POST /backtest'])
P('A02', 'Optimisation service',
  'An optimisation request evolves parameters for the training symbols from the requested seed, and reports the seed and every generation (with its number in the evolution, the first being 0) in which some place of the hall of fame improved over all generations before, and no other generation. Each reported individual comes with its fitness and, for each distinct training and validation symbol, the statistics of trading that symbol with it. The statistics and aggregations on offer are all those there are.',
  (I, C), 'every price, seed and request within the bounds', 'no test runs the service', [X + 'routes/optimize.rs', X + 'exchange.rs', X + 'main.rs'], [('post, par_optimize, get', X + 'routes/optimize.rs')], ['the answers to POST and GET /optimize'])
P('A03', 'Data from the core, and failures',
  'For both services the core is asked once for the exchange info and the daily prices (in usdt, of every asset involved and btc), and once per distinct symbol and interval for regular candles, all of the requested exchange and time. The client returns just what the core says for a success; a refusal (status 4xx) becomes an error with its status, address and message, any other failure an error. A service whose core fails in any request answers with status 500 and the message, without results.',
  (I, C, S), 'every status, content and failing request within the bounds', 'no test runs the client or the services', [X + 'exchange.rs', X + 'error.rs', X + 'routes/backtest.rs', X + 'routes/optimize.rs', 'juno/src/clients/juno_core.rs'], [('Client methods, error_for_juno_status', 'juno/src/clients/juno_core.rs'), ('Error', X + 'error.rs')], ['requests to the core, results of the client, answers of the services'])
NA = {}
def main():
    import sys; sys.path.insert(0, D)
    import props
    with open(D + '/properties.jsonl', 'w') as f:
        for r in R: f.write(json.dumps(r) + '\n')
    ch = []
    for r in R:
        if r['id'] in props.PROPS and r['id'] not in NA:
            p = props.PROPS[r['id']]
            ch.append(dict(property=r['id'], quick_cmd='./run.py %s' % r['id'], thorough_cmd='./run.py %s --tier thorough' % r['id'],
                technique='bounded symbolic execution of the compiled LLVM IR, decided by SMT (z3, cvc5)', level='model_checking',
                level_note=('Every path within the bounds is explored symbolically and every assertion decided by a solver for all inputs on that path; counterexamples are replayed natively. Bounds: ' + p['bounds'] +
                            ('. Outside: ' + p['outside'] if p.get('outside') else '') + '. Trusts the IR-to-SMT engine, z3/cvc5, rustc, and the stubs listed in the evidence.')))
    na = [dict(property=r['id'], reason=NA.get(r['id'], 'no check has been built yet')) for r in R if r['id'] not in [c['property'] for c in ch]]
    json.dump(dict(version=1, setup_cmd='./run.py --build', hooks=dict(guard='none', enable='no hooks are needed', source_commits=[]), checks=ch, not_applicable=na,
        notes='Each check rebuilds juno from /repo through the harness crate, executes it symbolically and rewrites evidence/<id>.json. Known findings: known_findings.txt.'), open(D + '/MANIFEST.json', 'w'), indent=1)
    open(D + '/MANIFEST.json', 'a').write('\n')
    print(len(R), 'properties', len(ch), 'checks', len(na), 'not applicable')
if __name__ == '__main__': main()
