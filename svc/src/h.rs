//! The backtest and optimisation services, from a request to its answer, against a modelled core server.
use crate::vf::*;
use axum::val::*;
use juno::genetics::{crossover, mutation, reinsertion, selection, Generation, GeneticAlgorithm};
use juno::indicators::*;
use juno::statistics::Statistics;
use juno::stop_loss as sl;
use juno::strategies::*;
use juno::take_profit as tp;
use juno::trading::*;
use juno::*;
use reqwest::Reply;
use serde_json::{json, Value};
use std::collections::HashMap;

const HOUR: u64 = 3_600_000;
const DAY: u64 = 24 * HOUR;
const START: u64 = 500 * DAY;
struct Series { symbol: &'static str, interval: u64, candles: Vec<Candle> }
struct World {
    series: Vec<Series>, info: ExchangeInfo, prices: HashMap<String, Vec<f64>>, days: u64,
    /// a request that goes wrong: 0 none, 1 exchange info, 2 prices, 3.. candles; how: 0 client error, 1 server error, 2 no answer, 3 something else than asked for
    fail: u64, how: u64, late: u64,
    seen: Vec<(String, Value)>, candle_requests: u64,
}
static mut W: Option<World> = None;
fn w() -> &'static mut World { unsafe { (*std::ptr::addr_of_mut!(W)).as_mut().unwrap() } }
const SYMBOLS: [&str; 3] = ["eth-btc", "ltc-btc", "eth-usdt"];
fn price(b: &str) -> f64 { match b { "eth" => 0.1, "ltc" => 0.01, _ => 1.0 } }
/// free: three times the number of the symbol with a free price, plus the range of it; 9 none
fn world(symbols: usize, intervals: &[u64], days: u64, free: u64, fail: u64, how: u64, late: u64) {
    let mut series = vec![];
    for (k, symbol) in SYMBOLS[..symbols].iter().enumerate() { for (l, interval) in intervals.iter().enumerate() {
        let mut candles = vec![];
        for i in 0..days * DAY / interval {
            let close = if i == 2 && free / 3 == k as u64 { let (a, b) = [(4.0, 9.1), (9.2, 13.0), (13.1, 30.0)][free as usize % 3]; f64_in(a, b) } else { [10.0, 11.0, 12.5, 9.0, 12.0, 8.0, 10.0][i as usize % 7] + (k * 2 + l) as f64 };
            candles.push(Candle { time: Timestamp(START + i * interval), open: close, high: close, low: close, close, volume: 1.0 });
        }
        series.push(Series { symbol: *symbol, interval: *interval, candles });
    } }
    let mut info = ExchangeInfo { assets: HashMap::new(), fees: HashMap::new(), filters: HashMap::new(), borrow_info: HashMap::new() };
    let mut prices = HashMap::new();
    for (k, symbol) in SYMBOLS.iter().enumerate() {
        let (base, quote) = symbol.assets();
        let x = k as f64;
        info.fees.insert(symbol.to_string(), Fees { maker: 0.001 + x / 1000.0, taker: 0.002 + x / 1000.0 });
        info.filters.insert(symbol.to_string(), Filters { price: filters::Price { min: 0.0, max: 0.0, step: 0.0 }, size: filters::Size { min: 0.0, max: 0.0, step: 0.0 }, base_precision: 8, quote_precision: 8 });
        let mut b = HashMap::new();
        for (l, a) in [base, quote].iter().enumerate() { b.insert(a.to_string(), BorrowInfo { interest_interval: HOUR, interest_rate: 0.0001 * (x + 1.0 + 5.0 * l as f64), limit: 1e6 / (x + 1.0) }); }
        info.borrow_info.insert(symbol.to_string(), b);
        for a in [base, quote, "btc"] { if !prices.contains_key(a) { let mut v = vec![]; for i in 0..=days { v.push(if a == "btc" { 100.0 + i as f64 } else { price(a) * (50.0 + i as f64) }); } prices.insert(a.to_string(), v); } }
    }
    unsafe { W = Some(World { series, info, prices, days, fail, how, late, seen: vec![], candle_requests: 0 }) }
    reqwest::serve(answer);
}
fn answer(method: &str, url: &str, body: Value) -> Reply {
    let w = w();
    check(method == "POST", "the core is asked by POST");
    let mut path = url; for (i, c) in url.bytes().enumerate() { if c == b'/' { path = &url[i + 1..]; } }
    check(body["exchange"] == "binance", "the requested exchange is asked for");
    let (me, ok) = match path {
        "exchange_info" => (1, json!({ "assets": {}, "fees": w.info.fees, "filters": w.info.filters, "borrow_info": w.info.borrow_info })),
        "prices" => {
            check(body["start"] == START && body["end"] == START + w.days * DAY, "prices of the requested time");
            check(body["interval"] == DAY && body["target_asset"] == "usdt", "daily prices in usdt");
            let mut m = serde_json::Map::new();
            if let Value::Array(v) = &body["assets"] { for a in v { if let Value::String(a) = a { m.insert(a.clone(), json!(w.prices[a])); } } }
            (2, Value::Object(m))
        }
        "candles" => {
            check(body["start"] == START && body["end"] == START + w.days * DAY, "candles of the requested time");
            check(body["type_"] == "regular", "regular candles");
            let mut r = Value::Null;
            for s in &w.series { if body["symbol"] == s.symbol && body["interval"] == s.interval { r = json!(s.candles); } }
            check(!r.is_null(), "candles of a requested symbol and interval");
            w.candle_requests += 1;
            (2 + w.candle_requests, r)
        }
        _ => { check(false, "a request the core knows"); (0, Value::Null) }
    };
    w.seen.push((path.to_string(), body));
    let polls = match w.late { 0 => 0, 1 => choice(2), k => if me >= 3 { k.saturating_sub(me - 3) } else { me } };
    let answer = if w.fail != me { Some((200, ok)) } else { match w.how { 0 => Some((if choice(2) == 0 { 400 } else { 499 }, json!({ "message": "out of luck" }))), 1 => Some((if choice(2) == 0 { 500 } else { 599 }, Value::Null)), 2 => None, _ => Some((200, json!("nonsense"))) } };
    Reply { polls, answer }
}
fn call(path: &str, body: &Value) -> axum::response::Response {
    if crate::main().is_err() { check(false, "the service starts"); }
    match axum::app().call("POST", path, body) { Some(f) => tokio::block_on(f), None => { check(false, "the service is where it should be"); panic!() } }
}
fn eq(a: &Val, b: &Val, m: &str) {
    match (a, b) {
        (Val::Null, Val::Null) => {}
        (Val::Bool(x), Val::Bool(y)) => check(x == y, m),
        (Val::Int(x), Val::Int(y)) => check(x == y, m),
        (Val::Neg(x), Val::Neg(y)) => check(x == y, m),
        (Val::Num(x), Val::Num(y)) => close(*x, *y, m),
        (Val::Str(x), Val::Str(y)) => check(x == y, m),
        (Val::Seq(x), Val::Seq(y)) => { check(x.len() == y.len(), m); for i in 0..x.len().min(y.len()) { eq(&x[i], &y[i], m); } }
        (Val::Map(x), Val::Map(_)) => { check(x.len() == b.len(), m); for (k, v) in x { eq(v, b.get(k), m); } }
        _ => check(false, m),
    }
}
fn params(interval: u64, up: f64, down: f64) -> TradingParams {
    let sma = |period| MAParams::Sma(SmaParams { period });
    TradingParams { strategy: StrategyParams::DoubleMA(DoubleMAParams { mas: (sma(1), sma(2)) }), trader: TraderParams { interval: Interval(interval) },
        stop_loss: sl::StopLossParams::Basic(sl::BasicParams { up_threshold: up, down_threshold: down }), take_profit: tp::TakeProfitParams::Noop(tp::NoopParams {}) }
}
/// what the services should say about params on a symbol
fn expected(p: &TradingParams, symbol: &str, quote: f64) -> Val {
    let w = w(); let mut r = Val::Null;
    for s in &w.series { if s.symbol == symbol && s.interval == p.trader.interval.0 {
        let summary = trade(p, &TradeInput { candles: &s.candles, fees: &w.info.fees[symbol], filters: &w.info.filters[symbol], borrow_info: &w.info.borrow_info[symbol][symbol.base_asset()], margin_multiplier: 2, quote, long: true, short: true });
        r = ser(&Statistics::compose(&summary, symbol, &w.prices, Interval::DAY_MS));
        if let Val::Seq(p) = r.get("positions") { for p in p { cover(p.get("type").str()); } }
    } }
    r
}
const LISTS: [&[&str]; 6] = [&["eth-btc"], &["eth-btc", "ltc-btc"], &["ltc-btc", "eth-btc"], &["eth-btc", "ltc-btc", "eth-btc"], &["eth-usdt", "eth-btc", "ltc-btc"], &[]];
fn requests(symbols: &[&str], intervals: usize) {
    let w = w(); let n = |k: &str| { let mut n = 0; for (p, _) in &w.seen { n += (p == k) as usize; } n };
    check(n("exchange_info") == 1 && n("prices") == 1, "exchange info and prices are asked for once");
    check(n("candles") == symbols.len() * intervals, "candles are asked for once per symbol and interval");
    for (p, b) in &w.seen { if p == "prices" { let a = b["assets"].to_string(); for s in symbols { let (x, y) = s.assets(); check(a.contains(x) && a.contains(y), "prices of all assets are asked for"); } check(a.contains("btc"), "the price of btc is asked for"); } }
}
fn failed(r: &axum::response::Response) {
    check(r.status == 500, "a failing core is reported as a failure");
    check(r.body.get("symbol_stats").len() == 0 && r.body.get("generations").len() == 0, "a failure comes without results");
    check(r.body.get("message").str().len() > 0, "a failure comes with a message");
    if w().how == 0 { check(r.body.get("message").str().contains("out of luck"), "a failure passes on what the core says"); }
    cover("failure");
}
fn distinct(l: &[&'static str]) -> Vec<&'static str> { let mut v = vec![]; for s in l { if !v.contains(s) { v.push(*s); } } v }
/// cfg: [free][days][symbols][interval: 0 6 h, 1 12 h, 2 8 h][fail][how][late]
#[no_mangle] pub extern "C" fn h_a01(cfg: u64) {
    let d = |i: u32| (cfg / 10u64.pow(i)) % 10;
    let (list, interval) = (LISTS[d(4) as usize], [6 * HOUR, 12 * HOUR, 8 * HOUR][d(3) as usize]);
    world(3, &[interval], d(5), d(6), d(2), d(1), d(0));
    let quote = 10.0;
    let p = params(interval, 0.1, 0.2);
    let r = call("/backtest", &json!({ "exchange": "binance", "symbols": list, "start": START, "end": START + d(5) * DAY, "quote": quote, "trading": p }));
    let symbols = distinct(list);
    if d(2) > 0 { failed(&r); return; }
    check(r.status == 200, "a backtest succeeds");
    requests(&symbols, 1);
    let stats = r.body.get("symbol_stats");
    check(stats.len() == symbols.len(), "one result per symbol");
    for s in symbols { eq(&expected(&p, s, quote), stats.get(s), "the statistics of trading the symbol"); }
    cover("backtest");
}
fn silent(_: usize, _: &Generation<TradingParams>) {}
const TRAINING: [(&[&str], &[&str]); 4] = [(&["eth-btc"], &[]), (&["eth-btc"], &["ltc-btc"]), (&["eth-btc", "ltc-btc"], &["ltc-btc"]), (&["ltc-btc"], &["eth-btc", "eth-usdt"])];
/// cfg: [stream][free][population][generations][hall of fame][symbols][intervals][statistic][aggregation][fail][how]
#[no_mangle] pub extern "C" fn h_a02(cfg: u64) {
    let d = |i: u32| (cfg / 10u64.pow(i)) % 10;
    pinned_rng();
    let free = d(9);
    let intervals: &[u64] = [&[6 * HOUR][..], &[6 * HOUR, 12 * HOUR], &[12 * HOUR, 8 * HOUR, 6 * HOUR]][d(4) as usize];
    let (training, validation) = TRAINING[d(5) as usize];
    world(3, intervals, 1, free, d(1), d(0), 0);
    let (stat, stat_name) = [(EvaluationStatistic::Profit, "Profit"), (EvaluationStatistic::ReturnOverMaxDrawdown, "ReturnOverMaxDrawdown"), (EvaluationStatistic::SharpeRatio, "SharpeRatio"), (EvaluationStatistic::SortinoRatio, "SortinoRatio")][d(3) as usize];
    let (agg, agg_name) = [(EvaluationAggregation::Linear, "Linear"), (EvaluationAggregation::Log10, "Log10"), (EvaluationAggregation::Log10Factored, "Log10Factored")][d(2) as usize];
    let (pop, gens, hof, seed) = (d(8) as usize, d(7) as usize, d(6) as usize, cfg / 10_000_000_000);
    let quote = 10.0;
    let ctx = TradingParamsContext {
        strategy: StrategyParamsContext::DoubleMA(DoubleMAParamsContext { mas: Some((MAParams::Sma(SmaParams { period: 1 }), MAParams::Sma(SmaParams { period: 2 }))) }),
        trader: TraderParamsContext { intervals: intervals.iter().map(|i| Interval(*i)).collect() },
        stop_loss: sl::StopLossParamsContext::Basic(sl::BasicParamsContext { up_threshold: None, down_threshold: None }),
        take_profit: tp::TakeProfitParamsContext::Noop(Default::default()),
    };
    let r = call("/optimize", &json!({ "population_size": pop, "generations": gens, "hall_of_fame_size": hof, "seed": seed, "exchange": "binance", "start": START, "end": START + DAY, "quote": quote,
        "training_symbols": training, "validation_symbols": validation, "evaluation_statistic": stat_name, "evaluation_aggregation": agg_name, "context": ctx }));
    if d(1) > 0 { failed(&r); return; }
    check(r.status == 200, "an optimisation succeeds");
    let mut all = training.to_vec(); all.extend(validation); let symbols = distinct(&all);
    requests(&symbols, intervals.len());
    check(r.body.get("seed").int() == seed, "the seed is reported");
    // the evolution that the service runs
    let mut candles: HashMap<String, HashMap<Interval, Vec<Candle>>> = HashMap::new();
    for s in &w().series { candles.entry(s.symbol.to_string()).or_default().insert(Interval(s.interval), s.candles.clone()); }
    let train: Vec<String> = training.iter().map(|s| s.to_string()).collect();
    let algo = GeneticAlgorithm::new(
        BasicEvaluation::new(&BasicEvaluationInput { exchange_info: &w().info, candles: &candles, prices: &w().prices, symbols: &train, intervals: &ctx.trader.intervals, start: Timestamp(START), end: Timestamp(START + DAY), quote, evaluation_statistic: stat, evaluation_aggregation: agg }),
        selection::EliteSelection { shuffle: false }, crossover::UniformCrossover::new(0.5), mutation::UniformMutation::new(0.25), reinsertion::EliteReinsertion::new(0.75, 0.5));
    let e = algo.evolve(pop, gens, hof, Some(seed), silent, &ctx);
    let mut best: Vec<f64> = vec![];
    let out = r.body.get("generations"); let mut k = 0;
    for (nr, g) in e.generations.iter().enumerate() {
        let mut better = nr == 0;
        for (i, ind) in g.hall_of_fame.iter().enumerate() { if i >= best.len() { best.push(ind.fitness); } else if ind.fitness > best[i] { best[i] = ind.fitness; better = true; } }
        if !better { cover("no improvement"); continue; }
        if nr > 0 { cover("improvement"); }
        check(k < out.len(), "every improvement is reported"); if k >= out.len() { return; }
        let o = out.at(k); k += 1;
        check(o.get("nr").int() == nr as u64, "a reported generation has its number");
        let h = o.get("hall_of_fame");
        check(h.len() == g.hall_of_fame.len(), "the hall of fame is reported");
        for (i, ind) in g.hall_of_fame.iter().enumerate().take(h.len()) {
            eq(&ser(ind), h.at(i).get("individual"), "the individuals of the hall of fame are reported");
            let stats = h.at(i).get("symbol_stats");
            check(stats.len() == symbols.len(), "statistics for every symbol");
            for s in &symbols { eq(&expected(&ind.chromosome, s, quote), stats.get(s), "the statistics of trading the symbol"); }
        }
    }
    check(k == out.len(), "only improvements are reported");
}
/// the choices on offer are all different and can be asked for
#[no_mangle] pub extern "C" fn h_a03(_: u64) {
    if crate::main().is_err() { check(false, "the service starts"); }
    let r = match axum::app().call("GET", "/optimize", &Value::Null) { Some(f) => tokio::block_on(f), None => { check(false, "the service is where it should be"); return; } };
    check(r.status == 200, "the choices are told");
    let (s, a) = (r.body.get("evaluation_statistics"), r.body.get("evaluation_aggregations"));
    check(s.len() == 4 && a.len() == 3, "all choices are told");
    for n in ["Profit", "ReturnOverMaxDrawdown", "SharpeRatio", "SortinoRatio"] { let mut c = 0; for i in 0..s.len() { c += (s.at(i).str() == n) as u64; } check(c == 1, "every statistic is on offer"); }
    for n in ["Linear", "Log10", "Log10Factored"] { let mut c = 0; for i in 0..a.len() { c += (a.at(i).str() == n) as u64; } check(c == 1, "every aggregation is on offer"); }
}

// ---- the client of the core ----------------------------------------------------------------------
struct Exchange { path: &'static str, status: u16, reply: Option<Value>, body: Value, times: u64 }
static mut X: Option<Exchange> = None;
fn x() -> &'static mut Exchange { unsafe { (*std::ptr::addr_of_mut!(X)).as_mut().unwrap() } }
fn respond(method: &str, url: &str, body: Value) -> Reply {
    let x = x(); x.times += 1; x.body = body;
    check(method == "POST" && url == x.path, "the core is asked at its address");
    Reply { polls: choice(2), answer: x.reply.as_ref().map(|r| (x.status, r.clone())) }
}
fn candles(n: u64) -> Vec<Candle> { let p = || f64_in(-1e9, 1e9); (0..n).map(|_| Candle { time: Timestamp(u64_in(0, 1 << 42)), open: p(), high: p(), low: p(), close: p(), volume: p() }).collect() }
/// cfg: [items][method][body: 0 what was asked for, 1 a message, 2 nonsense, 3 none]
#[no_mangle] pub extern "C" fn h_a03c(cfg: u64) {
    use juno::clients::juno_core::*;
    let (n, method, body) = (cfg / 100, cfg / 10 % 10, cfg % 10);
    let cs = candles(if method == 0 || method == 1 { n } else { 0 });
    let some: Vec<Option<Candle>> = cs.iter().enumerate().map(|(i, c)| if i % 2 == 0 { Some(*c) } else { None }).collect();
    let ints: Vec<u64> = (0..if method == 2 { n } else { 0 }).map(|_| u64_in(0, 1 << 50)).collect();
    let mut prices: HashMap<String, Vec<f64>> = HashMap::new(); if method == 3 { for a in ["eth", "btc"] { prices.insert(a.to_string(), (0..n).map(|_| f64_in(-1e9, 1e9)).collect()); } }
    let fees = Fees { maker: f64_in(0.0, 1.0), taker: f64_in(0.0, 1.0) };
    let paths = ["http://core:1/candles", "http://core:1/candles_fill_missing_with_none", "http://core:1/candle_intervals", "http://core:1/prices", "http://core:1/exchange_info"];
    let good = match method { 0 => json!(cs), 1 => json!(some), 2 => json!(ints), 3 => json!(prices), _ => json!({ "assets": { "eth": { "precision": 7 } }, "fees": { "eth-btc": fees }, "filters": {}, "borrow_info": { "eth-btc": { "eth": BorrowInfo { interest_interval: 5, interest_rate: fees.maker, limit: fees.taker } } } }) };
    unsafe { X = Some(Exchange { path: paths[method as usize], status: u64_in(100, 599) as u16, reply: match body { 0 => Some(good), 1 => Some(json!({ "message": "no such thing" })), 2 => Some(json!("nonsense")), _ => None }, body: Value::Null, times: 0 }) }
    if method == 2 && body == 0 { assume((x().status < 400) | (x().status >= 500)); }
    reqwest::serve(respond);
    let c = Client::new("http://core:1");
    let (start, end, interval) = (u64_in(0, 1 << 42), u64_in(0, 1 << 42), u64_in(0, 1 << 42));
    let q = ListCandles { exchange: "e", symbol: "eth-btc", interval: Interval(interval), start: Timestamp(start), end: Timestamp(end), type_: if any_bool() { CandleType::Regular } else { CandleType::HeikinAshi } };
    let heikin = matches!(q.type_, CandleType::HeikinAshi);
    let same_candle = |a: &Candle, b: &Candle| { check(a.time == b.time, "candles come as the core has them"); for (x, y) in [(a.open, b.open), (a.high, b.high), (a.low, b.low), (a.close, b.close), (a.volume, b.volume)] { check(x == y, "candles come as the core has them"); } };
    let err = match method {
        0 => match tokio::block_on(c.list_candles(q)) { Ok(v) => { check(v.len() == cs.len(), "all candles come"); for i in 0..v.len().min(cs.len()) { same_candle(&v[i], &cs[i]); } None } Err(e) => Some(e) },
        1 => match tokio::block_on(c.list_candles_fill_missing_with_none(q)) { Ok(v) => { check(v.len() == cs.len(), "all candles come"); for i in 0..v.len().min(cs.len()) { check(v[i].is_some() == some[i].is_some(), "missing candles are missing"); if let Some(v) = &v[i] { same_candle(v, &cs[i]); } } None } Err(e) => Some(e) },
        2 => match tokio::block_on(c.list_candle_intervals(GetExchangeInfo { exchange: "e" })) { Ok(v) => { check(v.len() == ints.len(), "all intervals come"); for i in 0..v.len().min(ints.len()) { check(v[i].0 == ints[i], "intervals come as the core has them"); } None } Err(e) => Some(e) },
        3 => match tokio::block_on(c.map_asset_prices(MapAssetPrices { exchange: "e", assets: &["eth", "btc"], interval: Interval(interval), start: Timestamp(start), end: Timestamp(end), target_asset: "usdt" })) { Ok(v) => { check(v.len() == 2, "all prices come"); for (k, p) in &prices { match v.get(k) { Some(v) => { check(v.len() == p.len(), "all prices come"); for i in 0..v.len().min(p.len()) { check(v[i] == p[i], "prices come as the core has them"); } } None => check(false, "all prices come") } } None } Err(e) => Some(e) },
        _ => match tokio::block_on(c.get_exchange_info(GetExchangeInfo { exchange: "e" })) { Ok(v) => { check(v.assets["eth"].precision == 7, "assets come as the core has them"); let f = &v.fees["eth-btc"]; check(f.maker == fees.maker && f.taker == fees.taker, "fees come as the core has them"); let b = &v.borrow_info["eth-btc"]["eth"]; check(b.interest_interval == 5 && b.interest_rate == fees.maker && b.limit == fees.taker, "borrow info comes as the core has it"); None } Err(e) => Some(e) },
    };
    let x = x();
    check(x.times == 1, "one question is one request");
    check(x.body["exchange"] == "e", "the request names the exchange");
    if method == 0 || method == 1 || method == 3 { check(x.body["start"].as_u64() == Some(start) && x.body["end"].as_u64() == Some(end) && x.body["interval"].as_u64() == Some(interval), "the request has the times asked for"); }
    if method < 2 { check(x.body["symbol"] == "eth-btc" && x.body["type_"] == if heikin { "heikin-ashi" } else { "regular" }, "the request names the candles asked for"); }
    if method == 3 { check(x.body["assets"] == json!(["eth", "btc"]) && x.body["target_asset"] == "usdt", "the request names the assets asked for"); }
    match err {
        None => { check(body == 0 && x.status < 400, "an answer comes only from a success"); cover("answer"); }
        Some(e) => {
            check(body != 0 || x.status >= 400, "an answer of the core is not lost");
            match e {
                Error::Api { status, url, message } => { check(status.as_u16() == x.status && x.status >= 400 && x.status < 500, "a refusal has its status"); check(url.as_str() == x.path && message == "no such thing", "a refusal has its address and message"); cover("refusal"); }
                Error::Request(_) => { check(body != 1 || x.status < 400 || x.status >= 500, "a refusal is told as one"); cover("failure"); }
            }
        }
    }
}
