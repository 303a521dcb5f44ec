//! Trading statistics and the fitness built from them.
use crate::trade::*;
use crate::vf::*;
use juno::genetics::{Evaluation, Individual};
use juno::statistics::*;
use juno::trading::*;
use juno::*;
use std::collections::HashMap;

const DAY: u64 = 86_400_000;
fn fill() -> [Fill; 1] { let price = f64_in(1e-6, 1e6); [Fill { price, size: f64_in(1e-9, 1e6), quote: f64_in(1e-9, 1e6), fee: u64_in(0, 1) as f64 * f64_in(1e-9, 1e3) }] }
fn reason(k: u64) -> CloseReason { match k { 0 => CloseReason::Strategy, 1 => CloseReason::StopLoss, 2 => CloseReason::TakeProfit, _ => CloseReason::Cancelled } }
/// a position of either kind
fn position(short: bool, open_time: Timestamp, close_time: Timestamp, close_reason: CloseReason) -> Position {
    let (mut open_fills, close_fills) = (fill(), fill());
    if short { Position::Short(ShortPosition { open_time, collateral: f64_in(0.01, 1e6), borrowed: f64_in(1e-9, 1e6), open_fills, close_time, close_fills, close_reason }) }
    else { open_fills[0].quote = f64_in(0.01, 1e6); Position::Long(LongPosition { open_time, open_fills, close_time, close_fills, close_reason }) }
}
struct Pos { cost: f64, gain: f64, base_in: f64, base_out: f64, open: u64, close: u64, reason: u64 }
fn figures(p: &Position) -> Pos {
    let r = |r: CloseReason| match r { CloseReason::Strategy => 0, CloseReason::StopLoss => 1, CloseReason::TakeProfit => 2, CloseReason::Cancelled => 3 };
    match p {
        Position::Long(p) => { let (o, c) = (&p.open_fills[0], &p.close_fills[0]); Pos { cost: o.quote, gain: c.quote - c.fee, base_in: o.size - o.fee, base_out: c.size, open: p.open_time.0, close: p.close_time.0, reason: r(p.close_reason) } }
        Position::Short(p) => { let (o, c) = (&p.open_fills[0], &p.close_fills[0]); Pos { cost: p.collateral, gain: o.quote - o.fee + p.collateral - c.quote, base_in: p.borrowed, base_out: p.borrowed, open: p.open_time.0, close: p.close_time.0, reason: r(p.close_reason) } }
    }
}
/// positions in the order of cfg's digits (1 long, 2 short, 3 and 4 same with a fixed close reason), symbolic everywhere else
fn summary(mut cfg: u64) -> TradingSummary {
    flags(INT);
    let start = u64_in(0, 1 << 42); let mut t = start;
    let mut v = vec![];
    while cfg > 0 {
        let (o, d) = (u64_in(0, 1 << 36), u64_in(0, 1 << 36));
        v.push(position(cfg % 2 == 0, Timestamp(t + o), Timestamp(t + o + d), reason(if cfg % 10 < 3 { u64_in(0, 3) } else { 0 })));
        t += o + d; cfg /= 10;
    }
    let mut s = TradingSummary::new(Timestamp(start), Timestamp(t + u64_in(0, 1 << 36)), f64_in(0.01, 1e6));
    s.positions = v; s
}
fn ann(duration: u64, v: f64) -> f64 {
    if duration == 0 { return 0.0; }
    let r = (1.0 + v).powf(1.0 / (duration as f64 / 31_556_952_000.0)) - 1.0;
    if r != r { 0.0 } else { r }
}
/// cfg: positions
#[no_mangle] pub extern "C" fn h_c01(cfg: u64) {
    let s = summary(cfg); let c = CoreStatistics::compose(&s);
    let v: Vec<Pos> = s.positions.iter().map(figures).collect();
    let n = v.len();
    let (mut profit, mut quote, mut peak, mut worst, mut total, mut time) = (0.0, s.quote, s.quote, 0.0, 0.0, 0);
    let mut counts = [0u32; 4]; let (mut won, mut lost) = (0u32, 0u32);
    for p in &v {
        let r = p.gain - p.cost;
        profit += r; quote += r; time += p.close - p.open; for k in 0..4 { counts[k] += (p.reason == k as u64) as u32; }
        lost += (r < 0.0) as u32; won += !(r < 0.0) as u32;
        if quote > peak { peak = quote }
        let d = 1.0 - quote / peak; total += d; if d > worst { worst = d; }
    }
    check(c.start.0 == s.start.0 && c.end.0 == s.end.0 && c.duration.0 == s.end.0 - s.start.0, "the statistics cover the backtest");
    check(c.num_positions == n as u32, "number of positions");
    check(c.num_positions_in_profit == won && c.num_positions_in_loss == lost, "numbers of positions in profit and in loss");
    check(c.num_stop_losses == counts[1] && c.num_take_profits == counts[2], "numbers of stop losses and take profits");
    if n > 0 { check(c.mean_position_duration.0 == time / n as u64, "mean position duration"); close(c.mean_position_profit, profit / n as f64, "mean position profit"); close(c.mean_drawdown, total / n as f64, "mean drawdown"); cover("positions"); }
    else { check(c.mean_position_duration.0 == 0 && c.mean_position_profit == 0.0 && c.mean_drawdown == 0.0, "no positions, no means"); }
    close(c.cost, s.quote, "cost"); close(c.profit, profit, "profit"); close(c.gain, s.quote + profit, "gain"); close(c.roi, profit / s.quote, "return on investment");
    close(c.annualized_roi, ann(s.end.0 - s.start.0, c.roi), "annualised return on investment");
    close(c.max_drawdown, worst, "maximum drawdown");
    if worst == 0.0 { check(c.return_over_max_drawdown == 0.0, "no drawdown, no return over it"); cover("no drawdown"); } else { close(c.return_over_max_drawdown, profit / s.quote / worst, "return over maximum drawdown"); cover("drawdown"); }
    for p in &s.positions {
        let (q, f) = (PositionStatistics::compose(p), figures(p));
        check(q.open_time.0 == f.open && q.close_time.0 == f.close && q.duration.0 == f.close - f.open, "times of a position");
        check(matches!(q.type_, PositionType::Long) == matches!(p, Position::Long(_)), "type of a position");
        check(q.close_reason == reason(f.reason), "close reason of a position");
        close(q.cost, f.cost, "cost of a position"); close(q.gain, f.gain, "gain of a position"); close(q.profit, f.gain - f.cost, "profit of a position"); close(q.roi, (f.gain - f.cost) / f.cost, "return of a position");
        close(q.annualized_roi, ann(f.close - f.open, q.roi), "annualised return of a position");
    }
}
/// cfg: positions
#[no_mangle] pub extern "C" fn h_c02(cfg: u64) {
    let s = summary(cfg); let c = CoreStatistics::compose(&s);
    close(c.profit, get_profit(&s), "profit is the profit of the statistics");
    close(c.return_over_max_drawdown, get_return_over_max_drawdown(&s), "return over maximum drawdown is that of the statistics");
}
/// [flat][periods][interval 0 day, 1 hour][positions in order, right to left]: 1 long, 2 short, 3 long within one period, 4 short within one period, 5 long until the end; flat: quote is the numeraire and a period may leave the price as it was
fn valued(cfg: u64) -> (TradingSummary, HashMap<String, Vec<f64>>, u64) {
    let (flat, periods, iv, mut kinds) = (cfg >= 1_000_000, cfg / 100_000 % 10, if cfg / 10_000 % 10 == 0 { DAY } else { 3_600_000 }, cfg % 10_000);
    let start = 500 * iv; let mut t = start + iv / 4; let end = start + periods * iv;
    let mut v = vec![];
    while kinds > 0 {
        let k = kinds % 10;
        let c = match k { 5 => end, 3 | 4 => t + iv / 4, _ => t + iv };
        v.push(position(k % 2 == 0, Timestamp(t), Timestamp(c), CloseReason::Strategy));
        t = c; kinds /= 10;
    }
    let mut s = TradingSummary::new(Timestamp(start), Timestamp(end), f64_in(0.01, 1e6));
    s.positions = v;
    let (mut b, mut q) = (vec![], vec![]);
    for i in 0..periods as usize + 1 {
        b.push(if flat && i > 0 && choice(2) == 0 { b[i - 1] } else { f64_in(0.01, 1e6) });
        q.push(if flat { 1.0 } else { f64_in(0.01, 1e6) });
    }
    let mut prices = HashMap::new(); prices.insert("eth".to_string(), b); prices.insert("btc".to_string(), q); prices.insert("ltc".to_string(), vec![]);
    (s, prices, iv)
}
/// value of the portfolio at the start and after every period
fn performance(s: &TradingSummary, prices: &HashMap<String, Vec<f64>>, iv: u64) -> Vec<f64> {
    let (b, q) = (&prices["eth"], &prices["btc"]);
    let mut r = vec![s.quote * q[0]];
    let (mut base, mut quote) = (0.0, s.quote);
    for i in 1..b.len() {
        let (from, to) = (s.start.0 + (i as u64 - 1) * iv, s.start.0 + i as u64 * iv);
        for p in &s.positions { let f = figures(p);
            if from <= f.open && f.open < to { base += f.base_in; quote += -f.cost; }
            if from <= f.close && f.close < to { base += -f.base_out; quote += f.gain; } }
        r.push(base * b[i] + quote * q[i]);
    }
    r
}
fn finite(x: f64) -> f64 { if x.is_finite() { x } else { 0.0 } }
/// annualised return, Sharpe and Sortino ratio
fn ratios(perf: &[f64]) -> (f64, f64, f64) {
    let g: Vec<f64> = (1..perf.len()).map(|i| (perf[i] / perf[i - 1] - 1.0 + 1.0).ln()).collect();
    let mean = |v: &[f64]| { let mut s = 0.0; for x in v { s += *x; } s / v.len() as f64 };
    let dev = |v: &[f64]| { let m = mean(v); let mut s = 0.0; for x in v { s += (m - *x) * (m - *x); } (s / v.len() as f64).sqrt() };
    let a = 365.0 * mean(&g);
    if a != a { return (0.0, 0.0, 0.0); }
    let neg: Vec<f64> = g.iter().cloned().filter(|x| *x < 0.0).collect();
    if neg.len() > 0 { cover("losses"); } else { cover("no losses"); }
    let y = 19.104_973_174_542_8;
    (a, finite(a / (y * dev(&g))), finite(a / (y * dev(&neg))))
}
/// cfg as for valued
#[no_mangle] pub extern "C" fn h_c01x(cfg: u64) {
    let (s, prices, iv) = valued(cfg);
    let e = ExtendedStatistics::compose(&s, "eth-btc", &prices, Interval(iv));
    let (a, sharpe, sortino) = ratios(&performance(&s, &prices, iv));
    close(e.annualized_return, a, "annualised return"); close(e.sharpe_ratio, sharpe, "Sharpe ratio"); close(e.sortino_ratio, sortino, "Sortino ratio");
}
/// cfg as for valued
#[no_mangle] pub extern "C" fn h_c02x(cfg: u64) {
    let (s, prices, iv) = valued(cfg);
    let all = Statistics::compose(&s, "eth-btc", &prices, Interval(iv));
    close(all.extended.sharpe_ratio, get_sharpe_ratio(&s, "eth-btc", &prices, Interval(iv)), "the Sharpe ratio is that of the statistics");
    close(all.extended.sortino_ratio, get_sortino_ratio(&s, "eth-btc", &prices, Interval(iv)), "the Sortino ratio is that of the statistics");
    close(all.core.profit, get_profit(&s), "profit is the profit of the statistics");
    check(all.positions.len() == s.positions.len(), "every position has its statistics");
}
fn number(x: f64, m: &str) { check(x == x, m) }
/// cfg as for valued: any summary
#[no_mangle] pub extern "C" fn h_c03(cfg: u64) {
    let (s, prices, iv) = valued(cfg);
    let p = performance(&s, &prices, iv); if (1..p.len()).any(|i| p[i] < p[i - 1]) { cover("losses"); } else { cover("no losses"); }
    sane(&s, &prices, iv);
}
fn sane(s: &TradingSummary, prices: &HashMap<String, Vec<f64>>, iv: u64) {
    let i = Interval(iv);
    let all = Statistics::compose(s, "eth-btc", prices, i);
    let (sharpe, sortino) = (get_sharpe_ratio(s, "eth-btc", prices, i), get_sortino_ratio(s, "eth-btc", prices, i));
    check(sharpe.is_finite() & all.extended.sharpe_ratio.is_finite(), "the Sharpe ratio is finite");
    check(sortino.is_finite() & all.extended.sortino_ratio.is_finite(), "the Sortino ratio is finite");
    number(all.extended.annualized_return, "the annualised return is a number");
    let c = &all.core;
    for x in [c.cost, c.gain, c.profit, c.roi, c.annualized_roi, c.mean_position_profit, c.max_drawdown, c.mean_drawdown, c.return_over_max_drawdown] { number(x, "every figure of the statistics is a number"); }
    for p in &all.positions { for x in [p.cost, p.gain, p.profit, p.roi, p.annualized_roi] { number(x, "every figure of a position is a number"); } }
    number(get_profit(s), "profit is a number"); number(get_return_over_max_drawdown(s), "return over maximum drawdown is a number");
}

fn days(cfg: u64) -> Scenario { scenario_at(cfg, DAY, 18_000 * DAY, choice(2)) }
fn markets(s: &Scenario) -> HashMap<String, Vec<f64>> {
    let (mut b, mut q) = (vec![f64_in(0.01, 1e6)], vec![f64_in(0.01, 1e6)]);
    let n = if s.candles.len() == 0 { return HashMap::from([("eth".to_string(), vec![1.0; 2]), ("btc".to_string(), vec![f64_in(0.01, 1e6); 2])]) } else { (s.candles[s.candles.len() - 1].time.0 + DAY - s.candles[0].time.0) / DAY };
    for i in 0..n { q.push(f64_in(0.01, 1e6)); let j = s.candles.iter().filter(|c| c.time.0 <= s.candles[0].time.0 + i * DAY).count() - 1; b.push(s.candles[j].close * q[i as usize + 1]); }
    let mut prices = HashMap::new(); prices.insert("eth".to_string(), b); prices.insert("btc".to_string(), q); prices
}
/// statistics of an actual backtest; cfg as for the trade scenarios
#[no_mangle] pub extern "C" fn h_c03t(cfg: u64) {
    let s = days(cfg);
    let prices = markets(&s);
    let sum = run(&s, s.candles.len());
    if sum.positions.len() > 0 { cover("traded"); } else { cover("not traded"); }
    sane(&sum, &prices, DAY);
}

// ---- fitness --------------------------------------------------------------------------------
fn symbol(i: u64) -> &'static str { if i == 0 { "eth-btc" } else if i == 1 { "ltc-btc" } else { "xmr-btc" } }
fn transform(aggregation: u64, v: f64) -> f64 {
    let v = if aggregation == 2 { v * 10.0 } else { v };
    if aggregation == 0 { v } else if v >= 0.0 { (v + 1.0).log10() } else { -(10f64.powf(-v + 1.0)) }
}
/// cfg: [scenario, 7 digits][symbols][statistic][aggregation]
#[no_mangle] pub extern "C" fn h_e01(cfg: u64) {
    let (n, statistic, aggregation) = (cfg / 100 % 10, cfg / 10 % 10, cfg % 10);
    let gap = choice(2);
    let mut all: Vec<Scenario> = vec![];
    for _ in 0..n { all.push(scenario_at(cfg / 1000, DAY, 18_000 * DAY, gap)); }
    let mut info = ExchangeInfo { assets: HashMap::new(), fees: HashMap::new(), filters: HashMap::new(), borrow_info: HashMap::new() };
    let (mut candles, mut prices) = (HashMap::new(), HashMap::new());
    let mut symbols = vec![];
    for (i, s) in all.iter().enumerate() {
        let name = symbol(i as u64).to_string(); let base = name.base_asset().to_string();
        let p = markets(s);
        prices.insert(base.clone(), p["eth"].clone());
        if i == 0 { prices.insert("btc".to_string(), p["btc"].clone()); }
        info.fees.insert(name.clone(), s.fees); info.filters.insert(name.clone(), s.filters);
        let mut b = HashMap::new(); b.insert(base, s.borrow); b.insert("btc".to_string(), BorrowInfo { limit: 0.0, ..s.borrow }); info.borrow_info.insert(name.clone(), b);
        let mut c = HashMap::new(); c.insert(Interval(DAY), s.candles.clone()); c.insert(Interval(3_600_000), vec![]); candles.insert(name.clone(), c);
        symbols.push(name);
    }
    let quote = f64_in(0.01, 1e9);
    let iv = [Interval(DAY)];
    let input = BasicEvaluationInput { exchange_info: &info, candles: &candles, prices: &prices, symbols: &symbols, intervals: &iv, start: Timestamp(18_000 * DAY), end: Timestamp(18_010 * DAY), quote,
        evaluation_statistic: EvaluationStatistic::values()[statistic as usize], evaluation_aggregation: EvaluationAggregation::values()[aggregation as usize] };
    let evaluation = BasicEvaluation::new(&input);
    let mut population = vec![Individual { chromosome: all[0].params.clone(), fitness: f64_in(-1e6, 1e6) }];
    evaluation.evaluate(&mut population);
    let mut expected = 0.0;
    for (i, s) in all.iter().enumerate() {
        let t = trade(&all[0].params, &TradeInput { candles: &s.candles, fees: &s.fees, filters: &s.filters, borrow_info: &s.borrow, margin_multiplier: 2, quote, long: true, short: true });
        if t.positions.len() > 0 { cover("traded"); }
        let v = match statistic { 0 => get_profit(&t), 1 => get_return_over_max_drawdown(&t), 2 => get_sharpe_ratio(&t, symbol(i as u64), &prices, Interval(DAY)), _ => get_sortino_ratio(&t, symbol(i as u64), &prices, Interval(DAY)) };
        expected += transform(aggregation, v);
    }
    let f = population[0].fitness;
    if aggregation < 2 || statistic < 2 { check(f == f, "the fitness is a number"); }
    same(f, expected, "the fitness is the aggregated statistic");
    across(&[f.to_bits()], "another process finds the same fitness");
}
