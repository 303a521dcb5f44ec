//! Stop loss and take profit rules driven through their public traits.
use crate::trade::{candle, stop_loss, take_profit};
use crate::vf::*;
use juno::easing::{tween, Easing};
use juno::indicators::Adx;
use juno::stop_loss::StopLossParams;
use juno::take_profit::{self as tp, TakeProfitParams};
use juno::Candle;

/// cfg: [kind][n]: n candles; before each but the first the rule may be cleared (as when no position is held)
#[no_mangle] pub extern "C" fn h_r01(cfg: u64) {
    let params = stop_loss(cfg / 10);
    let n = cfg % 10;
    let mut rule = params.construct();
    let mut since: Option<(f64, f64, f64)> = None; // close at the clear, highest and lowest since
    for i in 0..n {
        let c = candle(i, true);
        rule.update(&c);
        if let Some((p, h, l)) = since {
            let (h, l) = (if c.close > h { c.close } else { h }, if c.close < l { c.close } else { l });
            since = Some((p, h, l));
            let x = c.close;
            let (up, down) = match &params {
                StopLossParams::Noop(_) => (false, false),
                StopLossParams::Basic(b) => (x <= p * (1.0 - b.up_threshold), x >= p * (1.0 + b.down_threshold)),
                StopLossParams::Trailing(t) => (x <= h * (1.0 - t.up_threshold), x >= l * (1.0 + t.down_threshold)),
                StopLossParams::BasicPlusTrailing(q) => (x <= p * (1.0 - q.basic.up_threshold) || x <= h * (1.0 - q.trailing.up_threshold),
                    x >= p * (1.0 + q.basic.down_threshold) || x >= l * (1.0 + q.trailing.down_threshold)),
                StopLossParams::Legacy(g) => if g.threshold == 0.0 { (false, false) } else if g.trail { (x <= h * (1.0 - g.threshold), x >= l * (1.0 + g.threshold)) } else { (x <= p * (1.0 - g.threshold), x >= p * (1.0 + g.threshold)) },
            };
            if up { cover("upside hit"); }
            if down { cover("downside hit"); }
            check(rule.upside_hit() == up, "stop loss: the upside is hit exactly at its threshold");
            check(rule.downside_hit() == down, "stop loss: the downside is hit exactly at its threshold");
        }
        if since.is_none() || any_bool() { rule.clear(&c); since = Some((c.close, c.close, c.close)); if i > 0 && i + 1 < n { cover("cleared again"); } }
    }
}

#[no_mangle] pub extern "C" fn h_r02(cfg: u64) {
    let params = take_profit(cfg / 10);
    let n = cfg % 10;
    let mut rule = params.construct();
    let mut since: Option<f64> = None;
    for i in 0..n {
        let c = candle(i, true);
        rule.update(&c);
        if let Some(p) = since {
            let x = c.close;
            let (up, down) = match &params {
                TakeProfitParams::Noop(_) => (false, false),
                TakeProfitParams::Basic(b) => (x >= p * (1.0 + b.up_threshold), x <= p * (1.0 - b.down_threshold)),
                TakeProfitParams::Legacy(g) => if g.threshold == 0.0 { (false, false) } else { (x >= p * (1.0 + g.threshold), x <= p * (1.0 - g.threshold)) },
                TakeProfitParams::Trending(_) => panic!(),
            };
            if up { cover("upside hit"); }
            if down { cover("downside hit"); }
            check(rule.upside_hit() == up, "take profit: the upside is hit exactly at its threshold");
            check(rule.downside_hit() == down, "take profit: the downside is hit exactly at its threshold");
        }
        if since.is_none() || any_bool() { rule.clear(&c); since = Some(c.close); if i > 0 && i + 1 < n { cover("cleared again"); } }
    }
}

/// trending take profit. cfg: [easing][period][lock][n]
#[no_mangle] pub extern "C" fn h_r02t(cfg: u64) {
    let easing = [Easing::Linear, Easing::QuadIn, Easing::QuadOut, Easing::CubicIn][(cfg / 1000) as usize];
    let (period, lock, n) = ((cfg / 100 % 10) as u32, cfg / 10 % 10 == 1, cfg % 10);
    let th = || { let a = f64_in(0.001, 9.999); let b = f64_in(0.002, 10.0); assume(a < b); (a, b) };
    let (up, down) = (th(), th());
    let mut rule = TakeProfitParams::Trending(tp::TrendingParams { up_thresholds: up, down_thresholds: down, period, lock_threshold: lock, easing }).construct();
    let mut adx = Adx::new(period);
    let at = |c: &Candle, adx: &mut Adx| { adx.update(c.high, c.low); tween(adx.value / 100.0, easing) };
    let c0 = candle(0, true);
    rule.update(&c0);
    let mut progress = at(&c0, &mut adx);
    rule.clear(&c0);
    let mut p = c0.close;
    // trend strength interpolates between both settings; strongest and weakest trend reach one of them each
    let lerp = |a: f64, b: f64, t: f64| juno::math::lerp(a, b, t);
    for i in 1..n {
        let c = candle(i, true);
        rule.update(&c);
        let now = at(&c, &mut adx);
        if !lock { progress = now; }
        let x = c.close;
        let (u, d) = (rule.upside_hit(), rule.downside_hit());
        if u { cover("trending upside hit"); }
        check(u == (x >= p * (1.0 + lerp(up.0, up.1, progress))), "take profit: the trending upside threshold follows the trend strength (at the clear if locked)");
        check(d == (x <= p * (1.0 - lerp(down.0, down.1, progress))), "take profit: the trending downside threshold follows the trend strength (at the clear if locked)");
        if any_bool() { rule.clear(&c); p = c.close; progress = now; cover("trending cleared again"); }
    }
}
/// the trending threshold never leaves its two settings
#[no_mangle] pub extern "C" fn h_r02b(cfg: u64) {
    let _ = cfg;
    let (a, b, t) = (f64_in(0.001, 9.999), f64_in(0.002, 10.0), f64_in(0.0, 1.0));
    assume(a < b);
    let v = juno::math::lerp(a, b, t);
    le(a, v, "trending: threshold is not under the lower setting");
    le(v, b, "trending: threshold is not over the upper setting");
    close(v, (1.0 - t) * a + t * b, "trending: the threshold is the weighted mean of both settings");
    close(juno::math::lerp(a, b, 0.0), a, "trending: no trend gives the first setting"); close(juno::math::lerp(a, b, 1.0), b, "trending: the strongest trend gives the second setting");
}

// ---- easing curves -------------------------------------------------------------------------------
const CURVES: [(&str, Easing, fn(f64) -> f64); 31] = [
    ("Linear", Easing::Linear, ezing::linear::<f64> as fn(f64) -> f64),
    ("QuadIn", Easing::QuadIn, ezing::quad_in::<f64> as fn(f64) -> f64),
    ("QuadOut", Easing::QuadOut, ezing::quad_out::<f64> as fn(f64) -> f64),
    ("QuadInout", Easing::QuadInout, ezing::quad_inout::<f64> as fn(f64) -> f64),
    ("CubicIn", Easing::CubicIn, ezing::cubic_in::<f64> as fn(f64) -> f64),
    ("CubicOut", Easing::CubicOut, ezing::cubic_out::<f64> as fn(f64) -> f64),
    ("CubicInout", Easing::CubicInout, ezing::cubic_inout::<f64> as fn(f64) -> f64),
    ("QuartIn", Easing::QuartIn, ezing::quart_in::<f64> as fn(f64) -> f64),
    ("QuartOut", Easing::QuartOut, ezing::quart_out::<f64> as fn(f64) -> f64),
    ("QuartInout", Easing::QuartInout, ezing::quart_inout::<f64> as fn(f64) -> f64),
    ("QuintIn", Easing::QuintIn, ezing::quint_in::<f64> as fn(f64) -> f64),
    ("QuintOut", Easing::QuintOut, ezing::quint_out::<f64> as fn(f64) -> f64),
    ("QuintInout", Easing::QuintInout, ezing::quint_inout::<f64> as fn(f64) -> f64),
    ("SineIn", Easing::SineIn, ezing::sine_in::<f64> as fn(f64) -> f64),
    ("SineOut", Easing::SineOut, ezing::sine_out::<f64> as fn(f64) -> f64),
    ("SineInout", Easing::SineInout, ezing::sine_inout::<f64> as fn(f64) -> f64),
    ("CircIn", Easing::CircIn, ezing::circ_in::<f64> as fn(f64) -> f64),
    ("CircOut", Easing::CircOut, ezing::circ_out::<f64> as fn(f64) -> f64),
    ("CircInout", Easing::CircInout, ezing::circ_inout::<f64> as fn(f64) -> f64),
    ("ExpoIn", Easing::ExpoIn, ezing::expo_in::<f64> as fn(f64) -> f64),
    ("ExpoOut", Easing::ExpoOut, ezing::expo_out::<f64> as fn(f64) -> f64),
    ("ExpoInout", Easing::ExpoInout, ezing::expo_inout::<f64> as fn(f64) -> f64),
    ("ElasticIn", Easing::ElasticIn, ezing::elastic_in::<f64> as fn(f64) -> f64),
    ("ElasticOut", Easing::ElasticOut, ezing::elastic_out::<f64> as fn(f64) -> f64),
    ("ElasticInout", Easing::ElasticInout, ezing::elastic_inout::<f64> as fn(f64) -> f64),
    ("BackIn", Easing::BackIn, ezing::back_in::<f64> as fn(f64) -> f64),
    ("BackOut", Easing::BackOut, ezing::back_out::<f64> as fn(f64) -> f64),
    ("BackInout", Easing::BackInout, ezing::back_inout::<f64> as fn(f64) -> f64),
    ("BounceIn", Easing::BounceIn, ezing::bounce_in::<f64> as fn(f64) -> f64),
    ("BounceOut", Easing::BounceOut, ezing::bounce_out::<f64> as fn(f64) -> f64),
    ("BounceInout", Easing::BounceInout, ezing::bounce_inout::<f64> as fn(f64) -> f64),
];
/// cfg: curve
#[no_mangle] pub extern "C" fn h_r03(cfg: u64) {
    let (name, easing, f) = CURVES[cfg as usize];
    let x = f64_in(0.0, 1.0);
    let y = tween(x, easing);
    close(y, f(x), "an easing curve is the one it is named after");
    close(tween(0.0, easing), 0.0, "an easing curve starts at zero");
    close(tween(1.0, easing), 1.0, "an easing curve ends at one");
    check(crate::trade::de::<Easing>(&format!("\"{}\"", name)) == easing, "an easing curve is asked for by its name");
    let back: String = match serde_json::to_string(&easing) { Ok(s) => s, Err(_) => panic!() };
    check(back == format!("\"{}\"", name), "an easing curve is told by its name");
}
/// cfg: curve; those which do not overshoot stay within their end points
#[no_mangle] pub extern "C" fn h_r03r(cfg: u64) {
    let (_, easing, _) = CURVES[cfg as usize];
    let y = tween(f64_in(0.0, 1.0), easing);
    le(0.0, y, "an easing curve does not fall under zero"); le(y, 1.0, "an easing curve does not rise over one");
}
