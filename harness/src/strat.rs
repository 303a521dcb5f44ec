//! Strategies: each one's advice against its rule, stated over the (separately checked) indicators.
use crate::trade::de;
use crate::vf::*;
use juno::indicators::*;
use juno::strategies::*;
use juno::utils::MidTrendPolicy;
use juno::*;

fn meta() -> StrategyMeta { StrategyMeta { interval: Interval(1) } }
fn ma(kind: u64, period: u32) -> MAParams {
    match kind {
        0 => MAParams::Sma(SmaParams { period }),
        1 => MAParams::Ema(EmaParams { period, smoothing: None }),
        2 => MAParams::Ema2(Ema2Params { period }),
        3 => MAParams::Dema(DemaParams { period }),
        4 => MAParams::Smma(SmmaParams { period }),
        5 => MAParams::Kama(KamaParams { period }),
        _ => MAParams::Alma(AlmaParams { period, offset: 0.85, sigma: None }),
    }
}
fn candle(i: u64, hl: bool) -> Candle {
    let close = f64_in(0.01, 1e6);
    let (high, low) = if hl { let (h, l) = (f64_in(0.01, 1e6), f64_in(0.01, 1e6)); assume(l <= close); assume(close <= h); (h, l) } else { (close, close) };
    Candle { time: Timestamp(i), open: close, high, low, close, volume: 1.0 }
}
/// value of a moving average after each price, None while immature
fn series(p: &MAParams, xs: &[f64]) -> Vec<Option<f64>> {
    let mut m = p.construct();
    xs.iter().map(|x| { m.update(*x); if m.mature() { Some(m.value()) } else { None } }).collect()
}
fn advise(s: &mut dyn Signal, c: &[Candle]) -> Vec<Advice> { c.iter().map(|c| { s.update(c); s.advice() }).collect() }
fn expect(got: &[Advice], want: &[Advice], m: &str) {
    for i in 0..want.len() {
        match want[i] { Advice::None => cover("no advice"), Advice::Long => cover("long"), Advice::Short => cover("short"), Advice::Liquidate => cover("liquidate") }
        check(got[i] == want[i], m);
    }
}
const UP: f64 = 80.0;
const DOWN: f64 = 20.0;
fn rsi(p: u32) -> RsiParams { RsiParams { period: p, up_threshold: UP, down_threshold: DOWN } }
fn stoch(p: u32) -> StochParams { StochParams { k_period: p, k_sma_period: 1, d_sma_period: 1, up_threshold: UP, down_threshold: DOWN } }
/// every strategy kind; cfg digits [strategy][ma kind][period variant]
fn params(c: u64) -> StrategyParams {
    let (st, k, v) = (c / 100, c / 10 % 10, c % 10);
    let (s, m, l) = [(1, 2, 3), (2, 3, 4), (1, 3, 4)][v as usize % 3];
    match st {
        0 => StrategyParams::SingleMA(SingleMAParams { ma: ma(k, s) }),
        1 => StrategyParams::DoubleMA(DoubleMAParams { mas: (ma(k, s), ma(k, m)) }),
        2 => StrategyParams::DoubleMA2(DoubleMA2Params { neg_threshold: -0.5, pos_threshold: 0.25, mas: (ma(k, s), ma(k, m)) }),
        3 => StrategyParams::TripleMA(TripleMAParams { mas: (ma(k, s), ma(k, m), ma(k, l)) }),
        4 => StrategyParams::FourWeekRule(FourWeekRuleParams { period: m, ma: ma(k, s) }),
        5 => StrategyParams::Macd(MacdParams { periods: (s, m), signal_period: v as u32 % 2 + 1 }),
        6 => StrategyParams::DoubleMAStoch(DoubleMAStochParams { double_ma: DoubleMAParams { mas: (ma(k, s), ma(k, m)) }, stoch: stoch(m) }),
        7 => StrategyParams::Sig(SigParams { sig: signal(k), persistence: v as u32 % 3, mid_trend_policy: if v < 3 { MidTrendPolicy::Current } else { MidTrendPolicy::Ignore }, buffer_interval: None }),
        _ => StrategyParams::SigOsc(SigOscParams { sig: signal(k), osc: oscillator(v % 2, s), osc_filter: filter(v % 2), persistence: v as u32 % 3, mid_trend_policy: if v < 3 { MidTrendPolicy::Current } else { MidTrendPolicy::Ignore } }),
    }
}
fn filter<T: serde::de::DeserializeOwned>(v: u64) -> T { de(if v == 0 { "\"Enforce\"" } else { "\"Prevent\"" }) }
fn signal(k: u64) -> SignalParams {
    match k {
        0 => SignalParams::DoubleMA(DoubleMAParams { mas: (ma(0, 1), ma(0, 2)) }),
        1 => SignalParams::SingleMA(SingleMAParams { ma: ma(0, 2) }),
        2 => SignalParams::FourWeekRule(FourWeekRuleParams { period: 1, ma: ma(0, 2) }),
        3 => SignalParams::TripleMA(TripleMAParams { mas: (ma(0, 1), ma(0, 2), ma(0, 3)) }),
        4 => SignalParams::Macd(MacdParams { periods: (1, 2), signal_period: 1 }),
        _ => SignalParams::DoubleMA2(DoubleMA2Params { neg_threshold: -0.5, pos_threshold: 0.25, mas: (ma(0, 1), ma(0, 2)) }),
    }
}
fn oscillator(k: u64, p: u32) -> OscillatorParams { if k == 0 { OscillatorParams::Rsi(rsi(p)) } else { OscillatorParams::Stoch(stoch(p + 1)) } }

/// cfg: [n n][strategy][ma kind][variant]: maturity of every strategy kind
#[no_mangle] pub extern "C" fn h_s01(cfg: u64) {
    let (n, c) = (cfg / 1000, cfg % 1000);
    let mut s = params(c).construct(&meta());
    let t = s.maturity() as u64;
    check(!s.mature() && s.advice() == Advice::None, "a fresh strategy is not mature and gives no advice");
    for i in 0..n {
        s.update(&candle(i, c >= 600));
        check(s.mature() == (i + 1 >= t), "a strategy matures after exactly the announced number of candles");
        check(s.maturity() as u64 == t, "the announced maturity never changes");
        if i + 1 < t { cover("immature"); check(s.advice() == Advice::None, "no advice before maturity"); }
        else { cover("mature"); if s.advice() != Advice::None { cover("advice at maturity or later"); } }
    }
}

/// cfg: [n n][strategy][ma kind][variant]: the rule of every unfiltered strategy
#[no_mangle] pub extern "C" fn h_s02(cfg: u64) {
    let (n, c) = (cfg / 1000, cfg % 1000);
    let ps = params(c);
    let cs: Vec<Candle> = (0..n).map(|i| candle(i, c >= 600)).collect();
    let p: Vec<f64> = cs.iter().map(|c| c.close).collect();
    // what a moving-average cross says, held over while it says nothing
    fn dbl(ma: &(MAParams, MAParams), p: &[f64]) -> (Vec<Advice>, Vec<bool>) {
        let (s, l) = (series(&ma.0, p), series(&ma.1, p));
        let mut a = Advice::None;
        let mut o = vec![]; let mut m = vec![];
        for i in 0..p.len() {
            if let (Some(s), Some(l)) = (s[i], l[i]) { if s > l { a = Advice::Long; } else if s < l { a = Advice::Short; } m.push(true); } else { m.push(false); }
            o.push(a);
        }
        (o, m)
    }
    let mut want = vec![];
    let mut a = Advice::None;
    match ps {
        StrategyParams::SingleMA(ref x) => {
            let m = series(&x.ma, &p);
            for i in 0..p.len() {
                if i > 0 { if let (Some(prev), Some(now)) = (m[i - 1], m[i]) {
                    if p[i] > now && now > prev { a = Advice::Long; }
                    if p[i] < now && now < prev { a = Advice::Short; }
                } }
                want.push(a);
            }
            expect(&advise(&mut SingleMA::new(x, &meta()), &cs), &want, "SingleMA follows price over a rising average and under a falling one");
        }
        StrategyParams::DoubleMA(ref x) => expect(&advise(&mut DoubleMA::new(x, &meta()), &cs), &dbl(&x.mas, &p).0, "DoubleMA follows the short average over or under the long one"),
        StrategyParams::DoubleMA2(ref x) => {
            let (s, l) = (series(&x.mas.0, &p), series(&x.mas.1, &p));
            for i in 0..p.len() {
                if let (Some(s), Some(l)) = (s[i], l[i]) {
                    let d = 100.0 * (s - l) / ((s + l) / 2.0);
                    if d > x.pos_threshold { a = Advice::Long; } else if d < x.neg_threshold { a = Advice::Short; }
                }
                want.push(a);
            }
            expect(&advise(&mut DoubleMA2::new(x, &meta()), &cs), &want, "DoubleMA2 follows the relative distance of the averages beyond its thresholds");
        }
        StrategyParams::TripleMA(ref x) => {
            let (s, m, l) = (series(&x.mas.0, &p), series(&x.mas.1, &p), series(&x.mas.2, &p));
            for i in 0..p.len() {
                if let (Some(s), Some(m), Some(l)) = (s[i], m[i], l[i]) {
                    if s > m && m > l { a = Advice::Long; }
                    else if s < m && m < l { a = Advice::Short; }
                    else if (a == Advice::Short && s > m && s > l) || (a == Advice::Long && s < m && s < l) { a = Advice::Liquidate; }
                }
                want.push(a);
            }
            expect(&advise(&mut TripleMA::new(x, &meta()), &cs), &want, "TripleMA follows aligned averages and leaves when the short one crosses both others");
        }
        StrategyParams::FourWeekRule(ref x) => {
            let m = series(&x.ma, &p);
            let k = x.period as usize;
            for i in 0..p.len() {
                if i >= k {
                    let (mut hi, mut lo) = (true, true);
                    for j in i - k..i { if p[i] < p[j] { hi = false; } if p[i] > p[j] { lo = false; } }
                    if hi { a = Advice::Long; } else if lo { a = Advice::Short; }
                    else if let Some(m) = m[i] { if (a == Advice::Long && p[i] <= m) || (a == Advice::Short && p[i] >= m) { a = Advice::Liquidate; } }
                }
                want.push(a);
            }
            expect(&advise(&mut FourWeekRule::new(x, &meta()), &cs), &want, "FourWeekRule follows breakouts of the period and leaves across its average");
        }
        StrategyParams::Macd(ref x) => {
            let mut m = Macd2::new(x.periods.0, x.periods.1, x.signal_period);
            for i in 0..p.len() { m.update(p[i]); if m.mature() { a = if m.value > m.signal { Advice::Long } else { Advice::Short }; } want.push(a); }
            expect(&advise(&mut juno::strategies::Macd::new(x, &meta()), &cs), &want, "Macd is long over its signal line and short otherwise");
        }
        StrategyParams::DoubleMAStoch(ref x) => {
            let (d, dm) = dbl(&x.double_ma.mas, &p);
            let mut k = juno::indicators::Stoch::new(x.stoch.k_period, x.stoch.k_sma_period, x.stoch.d_sma_period);
            for i in 0..p.len() {
                k.update(cs[i].high, cs[i].low, cs[i].close);
                if k.mature() && dm[i] {
                    if a == Advice::Long && (d[i] == Advice::Short || k.k >= UP) { a = Advice::Liquidate; }
                    if a == Advice::Short && (d[i] == Advice::Long || k.k < DOWN) { a = Advice::Liquidate; }
                    if a != Advice::Long && a != Advice::Short {
                        if d[i] == Advice::Long && k.k < 50.0 { a = Advice::Long; }
                        if d[i] == Advice::Short && k.k >= 50.0 { a = Advice::Short; }
                    }
                }
                want.push(a);
            }
            expect(&advise(&mut DoubleMAStoch::new(x, &meta()), &cs), &want, "DoubleMAStoch enters with the averages away from the extremes and leaves against them");
        }
        _ => {}
    }
}
use juno::indicators::Macd as Macd2;
/// cfg: [n][osc][period]: oscillators call overbought and oversold by their thresholds once mature, never before
#[no_mangle] pub extern "C" fn h_s02o(cfg: u64) {
    let (n, k, p) = (cfg / 100, cfg / 10 % 10, (cfg % 10) as u32);
    let (up, down) = (f64_in(50.0, 100.0), f64_in(0.0, 50.0));
    let ps = if k == 0 { OscillatorParams::Rsi(RsiParams { period: p, up_threshold: up, down_threshold: down }) }
        else { OscillatorParams::Stoch(StochParams { k_period: p, k_sma_period: k as u32, d_sma_period: 1, up_threshold: up, down_threshold: down }) };
    let mut o = ps.construct(&meta());
    let mut r = juno::indicators::Rsi::new(p);
    let mut s = juno::indicators::Stoch::new(p, if k == 0 { 1 } else { k as u32 }, 1);
    for i in 0..n {
        let c = candle(i, k > 0);
        o.update(&c);
        let (v, m) = if k == 0 { r.update(c.close); (r.value, r.mature()) } else { s.update(c.high, c.low, c.close); (s.k, s.mature()) };
        check(o.mature() == m, "an oscillator is mature with its indicator");
        check(o.overbought() == (m && v >= up), "overbought means a mature value at or over the upper threshold");
        check(o.oversold() == (m && v < down), "oversold means a mature value under the lower threshold");
        if o.overbought() { cover("overbought"); } if o.oversold() { cover("oversold"); }
    }
}

/// what a filtered strategy gives for the advices that pass its oscillator: None until the advice has persisted, a trend already running ignored if so configured
pub fn filtered(v: &[Advice], level: usize, ignore: bool) -> Vec<Advice> {
    (0..v.len()).map(|i| {
        let mut persisted = i >= level;
        if persisted { for j in i - level..i { if v[j] != v[i] { persisted = false; } } }
        let mut running = ignore;
        for j in 0..=i { if v[j] != v[0] { running = false; } }
        if persisted && !running { v[i] } else { Advice::None }
    }).collect()
}
/// cfg: [n n][sig 0 / sig osc enforce 1 / prevent 2][osc][signal][persistence][policy 0 current, 1 previous, 2 ignore]
#[no_mangle] pub extern "C" fn h_s03(cfg: u64) {
    let (n, mode, ok, sk, level, pol) = (cfg / 100000, cfg / 10000 % 10, cfg / 1000 % 10, cfg / 100 % 10, cfg / 10 % 10, cfg % 10);
    let policy = [MidTrendPolicy::Current, MidTrendPolicy::Previous, MidTrendPolicy::Ignore][pol as usize];
    let cs: Vec<Candle> = (0..n).map(|i| candle(i, mode > 0 && ok > 0)).collect();
    let mut s: Box<dyn Signal> = if mode == 0 { Box::new(Sig::new(&SigParams { sig: signal(sk), persistence: level as u32, mid_trend_policy: policy, buffer_interval: None }, &meta())) }
        else { Box::new(SigOsc::new(&SigOscParams { sig: signal(sk), osc: oscillator(ok, 1), osc_filter: filter(mode - 1), persistence: level as u32, mid_trend_policy: policy }, &meta())) };
    let mut sig = signal(sk).construct(&meta());
    let mut osc = oscillator(ok, 1).construct(&meta());
    let mut passed = vec![];
    let mut got = vec![];
    let mut quiet = 0;
    for c in &cs {
        s.update(c); sig.update(c); if mode > 0 { osc.update(c); }
        if sig.mature() && (mode == 0 || osc.mature()) {
            let a = sig.advice();
            let allowed = match (mode, a) {
                (1, Advice::Long) => osc.oversold(), (1, Advice::Short) => osc.overbought(),
                (2, Advice::Long) => !osc.overbought(), (2, Advice::Short) => !osc.oversold(),
                _ => true,
            };
            if !allowed { cover("blocked by the oscillator"); }
            passed.push(if allowed { a } else { Advice::Liquidate });
            got.push(s.advice());
        } else { quiet += 1; check(s.advice() == Advice::None, "a filtered strategy is silent while its parts are immature"); }
    }
    check(quiet + 1 == if mode == 0 { sig.maturity() } else if sig.maturity() > osc.maturity() { sig.maturity() } else { osc.maturity() }, "the parts mature when they say");
    expect(&got, &filtered(&passed, level as usize, pol == 2), "a filtered strategy gives the allowed, persisted advice");
}
/// cfg: [n][k][policy]: a strategy on k-times buffered candles sees the merged candles only
#[no_mangle] pub extern "C" fn h_s03b(cfg: u64) {
    let (n, k) = (cfg / 100, cfg / 10 % 10);
    let mut s = Sig::new(&SigParams { sig: signal(cfg % 10), persistence: 0, mid_trend_policy: MidTrendPolicy::Current, buffer_interval: Some(Interval(k)) }, &meta());
    let mut sig = signal(cfg % 10).construct(&meta());
    let start = choice(k);
    let mut want = Advice::None;
    let mut part: Option<Candle> = None;
    for i in start..start + n {
        let c = candle(i, true);
        s.update(&c);
        let b = match part { None => Candle { time: Timestamp(i / k * k), ..c }, Some(b) => Candle { high: if c.high > b.high { c.high } else { b.high }, low: if c.low < b.low { c.low } else { b.low }, close: c.close, volume: b.volume + c.volume, ..b } };
        if (i + 1) % k == 0 { sig.update(&b); part = None; if sig.mature() { want = sig.advice(); } } else { part = Some(b); }
        check(s.mature() == sig.mature(), "a buffered strategy matures with the merged candles");
        check(s.advice() == want, "a buffered strategy advises on merged candles");
        if want == Advice::Long { cover("long"); }
    }
}
