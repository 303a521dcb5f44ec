//! Backtest trading loop: `juno::trading::trade` against an independent reference ledger.
use crate::vf::*;
use juno::indicators::*;
use juno::stop_loss::{self as sl, StopLossParams};
use juno::strategies::*;
use juno::take_profit::{self as tp, TakeProfitParams};
use juno::trading::*;
use juno::*;

pub fn de<T: serde::de::DeserializeOwned>(s: &str) -> T { match serde_json::from_str(s) { Ok(v) => v, Err(_) => panic!() } }
pub fn strategy(kind: u64) -> StrategyParams {
    let sma = |period| MAParams::Sma(SmaParams { period });
    match kind {
        0 => StrategyParams::DoubleMA(DoubleMAParams { mas: (sma(1), sma(2)) }),
        1 => StrategyParams::TripleMA(TripleMAParams { mas: (sma(1), sma(2), sma(3)) }),
        2 => StrategyParams::FourWeekRule(FourWeekRuleParams { period: 2, ma: sma(2) }),
        3 => StrategyParams::Macd(MacdParams { periods: (1, 2), signal_period: 1 }),
        4 => StrategyParams::Sig(SigParams { sig: SignalParams::DoubleMA(DoubleMAParams { mas: (sma(1), sma(2)) }), persistence: 1, mid_trend_policy: utils::MidTrendPolicy::Current, buffer_interval: None }),
        5 => StrategyParams::SigOsc(SigOscParams { sig: SignalParams::DoubleMA(DoubleMAParams { mas: (sma(1), sma(2)) }),
            osc: OscillatorParams::Rsi(RsiParams { period: 1, up_threshold: 70.0, down_threshold: 30.0 }), osc_filter: de("\"Prevent\""), persistence: 0, mid_trend_policy: utils::MidTrendPolicy::Current }),
        6 => StrategyParams::DoubleMA(DoubleMAParams { mas: (sma(1), sma(3)) }),
        7 => StrategyParams::SingleMA(SingleMAParams { ma: sma(2) }),
        8 => StrategyParams::FourWeekRule(FourWeekRuleParams { period: 1, ma: sma(3) }),
        _ => StrategyParams::DoubleMA(DoubleMAParams { mas: (MAParams::Ema(EmaParams { period: 1, smoothing: None }), MAParams::Ema(EmaParams { period: 2, smoothing: None })) }),
    }
}
pub fn stop_loss(kind: u64) -> StopLossParams {
    let b = || sl::BasicParams { up_threshold: f64_in(0.001, 1.0), down_threshold: f64_in(0.001, 1.0) };
    let t = || sl::TrailingParams { up_threshold: f64_in(0.001, 1.0), down_threshold: f64_in(0.001, 1.0) };
    match kind {
        0 => StopLossParams::Noop(sl::NoopParams {}),
        1 => StopLossParams::Basic(b()),
        2 => StopLossParams::Trailing(t()),
        3 => StopLossParams::BasicPlusTrailing(sl::BasicPlusTrailingParams { basic: b(), trailing: t() }),
        _ => StopLossParams::Legacy(sl::LegacyParams { threshold: f64_in(0.0, 1.0), trail: any_bool() }),
    }
}
pub fn take_profit(kind: u64) -> TakeProfitParams {
    match kind {
        0 => TakeProfitParams::Noop(tp::NoopParams {}),
        1 => TakeProfitParams::Basic(tp::BasicParams { up_threshold: f64_in(0.001, 10.0), down_threshold: f64_in(0.001, 10.0) }),
        2 => TakeProfitParams::Legacy(tp::LegacyParams { threshold: f64_in(0.0, 10.0) }),
        _ => { let u = (f64_in(0.001, 10.0), f64_in(0.001, 10.0)); let d = (f64_in(0.001, 10.0), f64_in(0.001, 10.0));
            TakeProfitParams::Trending(tp::TrendingParams { up_thresholds: u, down_thresholds: d, period: 1, lock_threshold: any_bool(), easing: easing::Easing::Linear }) }
    }
}

pub struct Scenario {
    pub params: TradingParams, pub candles: Vec<Candle>, pub fees: Fees, pub filters: Filters, pub borrow: BorrowInfo,
    pub margin: u32, pub quote: f64, pub long: bool, pub short: bool, pub interval: u64,
}
pub fn candle(time: u64, hl: bool) -> Candle {
    let close = f64_in(0.01, 1e6);
    let (high, low) = if hl { let h = f64_in(0.01, 1e6); let l = f64_in(0.01, 1e6); assume(l <= close); assume(close <= h); (h, l) } else { (close, close) };
    Candle { time: Timestamp(time), open: close, high, low, close, volume: 1.0 }
}
/// cfg digits: [n][strategy][stop loss][take profit][flags: 0 free long/short, 1 long only, 2 short only, 3 both][filters: 0 none, 1 symbolic, 2 step][margin]
pub fn scenario(cfg: u64) -> Scenario { let t0 = u64_in(0, 4_000_000_000_000); scenario_at(cfg, 3_600_000, t0, choice(2)) }
pub fn scenario_at(cfg: u64, interval: u64, t0: u64, gap: u64) -> Scenario {
    let d = |i: u32| (cfg / 10u64.pow(i)) % 10;
    if cfg >= 10_000_000 { flags(LIN); }
    // longer series along one pattern of directions, where a gap is two days wide: cfg / 10^7 = [tens of n][pattern]
    let pattern = cfg / 10_000_000 % 10;
    let n = d(6) + cfg / 100_000_000 * 10;
    let wide = if pattern > 0 { 48 } else { 1 };
    let mut candles: Vec<Candle> = vec![];
    for i in 0..n {
        let c = candle(t0 + interval * (i + if gap == 1 && i >= 2 { wide } else { 0 }), d(3) == 3);
        if pattern > 0 && i > 0 {
            let last = candles[i as usize - 1].close;
            let up = match pattern { 1 => i % 2 == 1, 2 => i % 4 < 2, 3 => i % 3 != 0, 4 => (i * i / 3) % 2 == 0, _ => i % 5 < 3 };
            if up { assume(c.close > last) } else { assume(c.close < last) }
        }
        candles.push(c);
    }
    let (long, short) = match d(2) { 0 => (any_bool(), any_bool()), 1 => (true, false), 2 => (false, true), _ => (true, true) };
    let size = match d(1) {
        0 => filters::Size { min: 0.0, max: 0.0, step: 0.0 },
        1 => filters::Size { min: f64_in(0.0, 1e3), max: f64_in(0.0, 1e6), step: 0.0 },
        // the minimum is a multiple of the step, as on real exchanges
        2 => { let step = f64_in(1e-6, 10.0); filters::Size { min: step, max: f64_in(0.0, 1e6), step } }
        _ => filters::Size { min: 0.0, max: f64_in(0.0, 1e6), step: 0.01 },
    };
    let prec = if d(1) == 0 { (8, 8) } else { (match choice(2) { 0 => 2, _ => 8 }, match choice(2) { 0 => 0, _ => 4 }) };
    Scenario {
        params: TradingParams { strategy: strategy(d(5)), trader: TraderParams { interval: Interval(interval) }, stop_loss: stop_loss(d(4)), take_profit: take_profit(d(3)) },
        candles,
        fees: Fees { maker: f64_in(0.0, 0.1), taker: f64_in(0.0, 0.1) },
        filters: Filters { price: filters::Price { min: 0.0, max: 0.0, step: 0.0 }, size, base_precision: prec.0, quote_precision: prec.1 },
        borrow: BorrowInfo { interest_interval: 3_600_000, interest_rate: f64_in(0.0, 0.01), limit: f64_in(0.0, 1e9) },
        margin: d(0) as u32, quote: f64_in(0.01, 1e9), long, short, interval,
    }
}
pub fn run(s: &Scenario, n: usize) -> TradingSummary {
    trade(&s.params, &TradeInput { candles: &s.candles[..n], fees: &s.fees, filters: &s.filters, borrow_info: &s.borrow, margin_multiplier: s.margin, quote: s.quote, long: s.long, short: s.short })
}

#[derive(Clone, Copy)]
pub struct Pos { pub long: bool, pub ot: u64, pub ct: u64, pub op: f64, pub os: f64, pub oq: f64, pub of: f64, pub cp: f64, pub cs: f64, pub cq: f64, pub cf: f64, pub reason: CloseReason, pub collateral: f64, pub borrowed: f64 }
pub fn flat(p: &Position) -> Pos {
    match p {
        Position::Long(p) => Pos { long: true, ot: p.open_time.0, ct: p.close_time.0, op: p.open_fills[0].price, os: p.open_fills[0].size, oq: p.open_fills[0].quote, of: p.open_fills[0].fee,
            cp: p.close_fills[0].price, cs: p.close_fills[0].size, cq: p.close_fills[0].quote, cf: p.close_fills[0].fee, reason: p.close_reason, collateral: 0.0, borrowed: 0.0 },
        Position::Short(p) => Pos { long: false, ot: p.open_time.0, ct: p.close_time.0, op: p.open_fills[0].price, os: p.open_fills[0].size, oq: p.open_fills[0].quote, of: p.open_fills[0].fee,
            cp: p.close_fills[0].price, cs: p.close_fills[0].size, cq: p.close_fills[0].quote, cf: p.close_fills[0].fee, reason: p.close_reason, collateral: p.collateral, borrowed: p.borrowed },
    }
}


fn t01(s: &Scenario, n: usize) {
    let sum = run(s, n);
    let c = &s.candles[..n];
    check(sum.quote == s.quote, "summary keeps the starting quote");
    if n > 0 {
        check(sum.start.0 == c[0].time.0, "summary starts at the first candle");
        check(sum.end.0 == c[n - 1].time.0 + s.interval, "summary ends when the last candle closes");
    }
    let mut prev_close = 0u64;
    let np = sum.positions.len();
    if np > 1 { cover("two positions"); }
    for (i, p) in sum.positions.iter().enumerate() {
        let p = flat(p);
        check(p.ot < p.ct || (p.ot == p.ct && p.reason == CloseReason::Cancelled), "a position closes after it opens");
        check(p.ot >= prev_close, "positions do not overlap");
        prev_close = p.ct;
        check(p.ct <= sum.end.0, "positions close within the traded range");
        check(p.ot > sum.start.0, "positions open within the traded range");
        if p.reason == CloseReason::Cancelled { cover("cancelled"); check(i + 1 == np, "only the last position may be cancelled"); check(p.ct == sum.end.0, "a cancelled position closes at the end of the range"); }
        let mut o = 0; let mut k = 0;
        for x in c {
            if x.time.0 + s.interval == p.ot { o += 1; check(x.close == p.op, "opening price is the close of the candle ending then"); }
            if x.time.0 + s.interval == p.ct { k += 1; check(x.close == p.cp, "closing price is the close of the candle ending then"); }
        }
        check(o == 1, "every opening coincides with the end of a candle");
        check(k == 1, "every closing coincides with the end of a candle");
        match &sum.positions[i] { Position::Long(q) => check(q.duration().0 == p.ct - p.ot, "duration is the time between opening and closing"), Position::Short(q) => check(q.duration().0 == p.ct - p.ot, "duration is the time between opening and closing") }
    }
}
#[no_mangle] pub extern "C" fn h_t01(cfg: u64) { let s = scenario(cfg); let n = s.candles.len(); t01(&s, n); }

// ---- independent reference ------------------------------------------------------------------
pub fn rdown(v: f64, p: u32) -> f64 { let k = 10f64.powi(p as i32); (v * k).floor() / k }
pub fn rhalf(v: f64, p: u32) -> f64 { let k = 10f64.powi(p as i32); (v * k).round() / k }
pub fn fit(f: &filters::Size, v: f64) -> f64 {
    if v < f.min { return 0.0; }
    let v = if f.max > 0.0 { f64::min(v, f.max) } else { v };
    if f.step > 0.0 { (v / f.step).floor() * f.step } else { v }
}
struct Open { long: bool, idx: usize, size: f64, fee: f64, borrowed: f64 }
pub struct Ev { pub long: bool, pub oi: usize, pub ci: usize, pub reason: CloseReason }
/// which positions the documented rules produce: entries on a changed advice while flat, exits by
/// strategy, then stop loss, then take profit, what is left is cancelled; trading ends when nothing can be bought
pub fn reference(s: &Scenario) -> Vec<Ev> {
    let mut strat = s.params.strategy.construct(&StrategyMeta { interval: Interval(s.interval) });
    let mut stop = s.params.stop_loss.construct();
    let mut take = s.params.take_profit.construct();
    let (bp, qp) = (s.filters.base_precision, s.filters.quote_precision);
    let mut cash = s.quote;
    let mut last = Advice::None;
    let mut open: Option<Open> = None;
    let mut out = vec![];
    let close = |o: Open, i: usize, reason: CloseReason, cash: &mut f64, out: &mut Vec<Ev>| {
        let price = s.candles[i].close;
        if o.long {
            let q = rdown(price * fit(&s.filters.size, o.size - o.fee), qp);
            *cash += q - rhalf(q * s.fees.taker, qp);
        } else {
            let dt = s.candles[i].time.0 - s.candles[o.idx].time.0;
            let periods = (dt + s.borrow.interest_interval - 1) / s.borrow.interest_interval;
            let mut size = o.borrowed + rhalf(o.borrowed * periods as f64 * s.borrow.interest_rate, bp);
            size += rhalf(size * s.fees.taker, bp);
            *cash -= rdown(price * size, qp);
        }
        out.push(Ev { long: o.long, oi: o.idx, ci: i, reason });
    };
    for i in 0..s.candles.len() {
        let c = &s.candles[i];
        stop.update(c); take.update(c); strat.update(c);
        let raw = strat.advice();
        let advice = if raw == Advice::None || raw == last { Advice::None } else { last = raw; raw };
        if let Some(o) = &open {
            let reason = if o.long {
                if advice == Advice::Short || advice == Advice::Liquidate { Some(CloseReason::Strategy) } else if stop.upside_hit() { Some(CloseReason::StopLoss) } else if take.upside_hit() { Some(CloseReason::TakeProfit) } else { None }
            } else if advice == Advice::Long || advice == Advice::Liquidate { Some(CloseReason::Strategy) } else if stop.downside_hit() { Some(CloseReason::StopLoss) } else if take.downside_hit() { Some(CloseReason::TakeProfit) } else { None };
            if let Some(r) = reason { let o = open.take().unwrap(); close(o, i, r, &mut cash, &mut out); }
        }
        if open.is_none() {
            let want = if s.long && advice == Advice::Long { 1 } else if s.short && advice == Advice::Short { 2 } else { 0 };
            if want > 0 {
                let size = fit(&s.filters.size, cash / c.close);
                if size == 0.0 { break; }
                if want == 1 {
                    let q = rdown(c.close * size, qp);
                    if q == 0.0 { break; }
                    cash -= q;
                    open = Some(Open { long: true, idx: i, size, fee: rhalf(size * s.fees.taker, bp), borrowed: 0.0 });
                } else {
                    let borrowed = f64::min(size * (s.margin - 1) as f64, s.borrow.limit);
                    let q = rdown(c.close * borrowed, qp);
                    cash += q - rhalf(q * s.fees.taker, qp);
                    open = Some(Open { long: false, idx: i, size, fee: 0.0, borrowed });
                }
            }
            stop.clear(c); take.clear(c);
        }
    }
    if let Some(o) = open { let i = s.candles.len() - 1; close(o, i, CloseReason::Cancelled, &mut cash, &mut out); }
    out
}
fn end_of(s: &Scenario, i: usize) -> u64 { s.candles[i].time.0 + s.interval }

/// exits: when and why
fn t04(s: &Scenario) {
    let sum = run(s, s.candles.len());
    let exp = reference(s);
    let n = sum.positions.len().min(exp.len());
    for i in 0..n {
        let p = flat(&sum.positions[i]); let e = &exp[i];
        if p.ot != end_of(s, e.oi) || p.long != e.long { return; } // entries are decided by T06
        check(p.reason == e.reason, "a position closes for the first applicable of: strategy, stop loss, take profit, end of data");
        check(p.ct == end_of(s, e.ci), "a position closes on the first candle that calls for it");
        match p.reason { CloseReason::Strategy => cover("closed by strategy"), CloseReason::StopLoss => cover("closed by stop loss"), CloseReason::TakeProfit => cover("closed by take profit"), CloseReason::Cancelled => cover("cancelled") }
    }
}
#[no_mangle] pub extern "C" fn h_t04(cfg: u64) { let s = scenario(cfg); t04(&s); }

/// entries: when and on which side
fn t06(s: &Scenario) {
    let sum = run(s, s.candles.len());
    let exp = reference(s);
    for p in &sum.positions { let p = flat(p); check(if p.long { s.long } else { s.short }, "only enabled sides are traded"); if p.long { cover("long") } else { cover("short") } }
    let mut k = 0;
    for i in 0..exp.len() {
        if i >= sum.positions.len() { check(false, "every changed advice seen while flat opens a position"); return; }
        let p = flat(&sum.positions[i]); let e = &exp[i];
        check(p.ot == end_of(s, e.oi), "a position opens on the candle whose advice changed"); check(p.long == e.long, "the side of a position follows the advice");
        k = i + 1;
        if p.ct != end_of(s, e.ci) { return; } // exits are decided by T04
    }
    check(k == sum.positions.len(), "no position is opened without a changed advice");
}
#[no_mangle] pub extern "C" fn h_t06(cfg: u64) { let s = scenario(cfg); t06(&s); }

/// money: fills, fees, cash
fn t02(s: &Scenario) {
    let sum = run(s, s.candles.len());
    let (bp, qp) = (s.filters.base_precision, s.filters.quote_precision);
    let mut cash = s.quote;
    for pos in &sum.positions {
        let p = flat(pos);
        match pos {
            Position::Long(q) => {
                close(p.oq, rdown(p.op * p.os, qp), "long: paid quote is price times size rounded down");
                close(p.of, rhalf(p.os * s.fees.taker, bp), "long: opening fee is the taker fee on the bought size");
                close(p.cs, fit(&s.filters.size, p.os - p.of), "long: everything bought less its fee is sold");
                le(p.cs, p.os, "long: never sells more than it bought");
                close(p.cq, rdown(p.cp * p.cs, qp), "long: received quote is price times size rounded down");
                close(p.cf, rhalf(p.cq * s.fees.taker, qp), "long: closing fee is the taker fee on the received quote");
                close(q.cost(), p.oq, "long: cost"); close(q.gain(), p.cq - p.cf, "long: gain"); close(q.profit(), p.cq - p.cf - p.oq, "long: profit is gain less cost");
                close(q.base_gain(), p.os - p.of, "long: base gain"); close(q.base_cost(), p.cs, "long: base cost");
                cash = cash - p.oq + p.cq - p.cf;
                cover("long");
            }
            Position::Short(q) => {
                close(p.collateral, cash, "short: collateral is the cash at opening");
                check(p.os == p.borrowed, "short: everything borrowed is sold");
                close(p.oq, rdown(p.op * p.os, qp), "short: received quote is price times size rounded down");
                close(p.of, rhalf(p.oq * s.fees.taker, qp), "short: opening fee is the taker fee on the received quote");
                close(p.cq, rdown(p.cp * p.cs, qp), "short: paid quote is price times size rounded down");
                close(q.cost(), p.collateral, "short: cost"); close(q.gain(), p.oq - p.of + p.collateral - p.cq, "short: gain"); close(q.profit(), p.oq - p.of - p.cq, "short: profit is what was received less what was paid back");
                close(q.base_gain(), p.borrowed, "short: base gain"); close(q.base_cost(), p.borrowed, "short: base cost");
                cash = cash + p.oq - p.of - p.cq;
                cover("short");
            }
        }
    }
}
#[no_mangle] pub extern "C" fn h_t02(cfg: u64) { let s = scenario(cfg); t02(&s); }

/// sizing
fn t03(s: &Scenario) {
    let sum = run(s, s.candles.len());
    let f = &s.filters.size;
    let mut cash = s.quote;
    for pos in &sum.positions {
        let p = flat(pos);
        let want = fit(f, cash / p.op);
        if p.long {
            close(p.os, want, "long: size is the largest the filters allow for the cash");
            check(p.os > 0.0, "long: size is positive");
            check(p.oq > 0.0, "long: nothing is bought for nothing");
            le(p.oq, cash, "long: never spends more than the cash it has");
            if f.max > 0.0 { le(p.os, f.max, "long: size respects the maximum"); cover("max"); }
            if d_min(f) { le(f.min, p.os, "long: size respects the minimum"); }
            cash = cash - p.oq + p.cq - p.cf;
            cover("long");
        } else {
            check(want != 0.0, "short: the collateral buys at least the minimum");
            check(p.borrowed <= s.borrow.limit, "short: never borrows beyond the limit");
            close(p.borrowed, f64::min(want * (s.margin - 1) as f64, s.borrow.limit), "short: borrows the margin multiple of the collateral");
            le(p.borrowed, want * (s.margin - 1) as f64, "short: never borrows beyond the margin multiple");
            if p.borrowed == s.borrow.limit { cover("limit"); }
            cash = cash + p.oq - p.of - p.cq;
            cover("short");
        }
    }
}
fn d_min(f: &filters::Size) -> bool { f.step == 0.0 && (f.max == 0.0 || f.min <= f.max) }
#[no_mangle] pub extern "C" fn h_t03(cfg: u64) { let s = scenario(cfg); t03(&s); }

/// no look-ahead: what is decided on a prefix of the candles is decided the same way with more candles
fn t05(s: &Scenario) {
    let n = s.candles.len();
    let full = run(s, n);
    for k in 1..n {
        let part = run(s, k);
        let np = part.positions.len();
        for i in 0..np {
            if i >= full.positions.len() { check(false, "positions taken on a prefix are taken on the whole"); return; }
            let a = flat(&part.positions[i]); let b = flat(&full.positions[i]);
            check(a.long == b.long && a.ot == b.ot, "an opening does not depend on later candles");
            same(a.op, b.op, "opening price does not depend on later candles"); same(a.os, b.os, "opening size does not depend on later candles");
            same(a.oq, b.oq, "opening quote does not depend on later candles"); same(a.of, b.of, "opening fee does not depend on later candles");
            if a.reason == CloseReason::Cancelled { check(b.ct >= a.ct, "a position still open is not closed earlier by later candles"); cover("open across the cut"); }
            else { check(a.reason == b.reason && a.ct == b.ct, "a closing does not depend on later candles"); same(a.cp, b.cp, "closing price does not depend on later candles"); same(a.cs, b.cs, "closing size does not depend on later candles"); same(a.cq, b.cq, "closing quote does not depend on later candles"); same(a.cf, b.cf, "closing fee does not depend on later candles"); cover("closed before the cut"); }
        }
        // anything new in the full run opens after the cut
        for i in np..full.positions.len() { check(flat(&full.positions[i]).ot > part.end.0, "later positions open after the prefix"); }
    }
}
#[no_mangle] pub extern "C" fn h_t05(cfg: u64) { let s = scenario(cfg); t05(&s); }

/// interest on a short
fn t07(s: &Scenario) {
    let sum = run(s, s.candles.len());
    let bp = s.filters.base_precision;
    for pos in &sum.positions {
        let p = flat(pos);
        if p.long { continue; }
        let dt = p.ct - p.ot;
        let ii = s.borrow.interest_interval;
        let mut periods = 0u64; let mut t = 0u64;
        while t < dt { t += ii; periods += 1; }
        let interest = rhalf(p.borrowed * periods as f64 * s.borrow.interest_rate, bp);
        let owed = p.borrowed + interest;
        close(p.cs, owed + rhalf(owed * s.fees.taker, bp), "short: buys back the borrowed size, interest for every started interval and the fee");
        close(p.cf, rhalf(owed * s.fees.taker, bp), "short: closing fee is the taker fee on the bought size");
        le(p.borrowed, p.cs, "short: buys back at least what it borrowed");
        cover("short");
        if periods > 1 { cover("several interest intervals"); }
        if p.ct == p.ot { check(periods == 0, "no time, no interest"); cover("zero duration"); }
    }
}
#[no_mangle] pub extern "C" fn h_t07(cfg: u64) {
    let mut s = scenario(cfg);
    s.borrow.interest_interval = match choice(5) { 0 => 3_600_000, 1 => 5_400_000, 2 => 1_800_000, 3 => 86_400_000, _ => 3_600_001 };
    t07(&s);
}
