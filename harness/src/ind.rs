//! Indicators against their definitions, written over the whole price series.
use crate::vf::*;
use juno::indicators::*;

pub fn mean(p: &[f64]) -> f64 { let mut s = 0.0; for x in p { s += *x; } s / p.len() as f64 }
/// exponential average of xs started from `seed`
fn expo(seed: f64, xs: &[f64], a: f64) -> f64 { let mut v = seed; for x in xs { v = a * *x + (1.0 - a) * v; } v }
pub fn sma(p: &[f64], n: usize) -> Option<f64> { if p.len() < n { None } else { Some(mean(&p[p.len() - n..])) } }
pub fn ema(p: &[f64], n: usize, a: f64) -> Option<f64> { if p.len() < n { None } else { Some(expo(p[0], &p[1..], a)) } }
fn ema2(p: &[f64], n: usize) -> Option<f64> { if p.len() < n { None } else { Some(expo(mean(&p[..n]), &p[n..], 2.0 / (n as f64 + 1.0))) } }
fn dema(p: &[f64], n: usize) -> Option<f64> {
    if p.len() < 2 * n - 1 { return None; }
    let a = 2.0 / (n as f64 + 1.0);
    let e1: Vec<f64> = (0..p.len()).map(|i| expo(p[0], &p[1..i + 1], a)).collect();
    Some(2.0 * e1[p.len() - 1] - expo(e1[n - 1], &e1[n..], a))
}
/// Wilder smoothing
pub fn wilder(p: &[f64], n: usize) -> Option<f64> { if p.len() < n { return None; } let k = n as f64; let mut v = mean(&p[..n]); for x in &p[n..] { v = (v * (k - 1.0) + *x) / k; } Some(v) }
fn smma(p: &[f64], n: usize) -> Option<f64> { if p.len() < n + 1 { None } else { wilder(p, n) } }
fn abs(x: f64) -> f64 { if x < 0.0 { -x } else { x } }
fn kama(p: &[f64], n: usize) -> Option<f64> {
    if p.len() < n + 1 { return None; }
    let mut v = p[n - 1];
    for i in n..p.len() {
        let mut s = 0.0;
        for j in i - n + 1..=i { s += f64::abs(p[j] - p[j - 1]); }
        let er = if s == 0.0 { 1.0 } else { f64::abs(p[i] - p[i - n]) / s };
        let sc = er * (2.0 / 3.0 - 2.0 / 31.0) + 2.0 / 31.0;
        v += sc * sc * (p[i] - v);
    }
    Some(v)
}
fn alma(p: &[f64], n: usize, offset: f64, sigma: Option<u32>) -> Option<f64> {
    if p.len() < n { return None; }
    let m = (offset * (n - 1) as f64).floor();
    let w: Vec<f64> = (0..n).map(|i| match sigma.unwrap_or((n as f64 / 1.5).floor() as u32) { 0 => 1.0, g => { let s = n as f64 / g as f64; let d = i as f64 - m; f64::exp(-d * d / (2.0 * s * s)) } }).collect();
    let mut t = 0.0; let mut v = 0.0;
    for i in 0..n { t += w[i]; }
    for i in 0..n { v += p[p.len() - n + i] * (w[i] / t); }
    Some(v)
}
fn alpha(variant: u64, n: u32) -> (Option<f64>, f64) { match variant { 0 => (None, 2.0 / (n as f64 + 1.0)), 1 => (Some(0.5), 0.5), 2 => (Some(1.0), 1.0), _ => { let a = f64_in(0.01, 1.0); (Some(a), a) } } }
/// [kind][period][variant]
fn ma(kind: u64, n: u32, variant: u64) -> (MAParams, Box<dyn Fn(&[f64]) -> Option<f64>>) {
    let k = n as usize;
    match kind {
        0 => (MAParams::Sma(SmaParams { period: n }), Box::new(move |p| sma(p, k))),
        1 => { let (s, a) = alpha(variant, n); (MAParams::Ema(EmaParams { period: n, smoothing: s }), Box::new(move |p| ema(p, k, a))) }
        2 => (MAParams::Ema2(Ema2Params { period: n }), Box::new(move |p| ema2(p, k))),
        3 => (MAParams::Dema(DemaParams { period: n }), Box::new(move |p| dema(p, k))),
        4 => (MAParams::Smma(SmmaParams { period: n }), Box::new(move |p| smma(p, k))),
        5 => (MAParams::Kama(KamaParams { period: n }), Box::new(move |p| kama(p, k))),
        _ => { let (o, g) = [(0.85, None), (0.5, Some(2)), (0.1, Some(6)), (0.99, Some(1))][variant as usize]; (MAParams::Alma(AlmaParams { period: n, offset: o, sigma: g }), Box::new(move |p| alma(p, k, o, g))) }
    }
}
fn price() -> f64 { f64_in(0.01, 1e6) }
/// cfg: [n n][kind][period][variant]
#[no_mangle] pub extern "C" fn h_i01(cfg: u64) {
    let (n, kind, period, variant) = (cfg / 1000, cfg / 100 % 10, (cfg / 10 % 10) as u32, cfg % 10);
    let (params, def) = ma(kind, period, variant);
    let mut x = params.construct();
    check(params.period() == period, "a moving average keeps its period");
    let mut p = vec![];
    for i in 0..n {
        let v = price(); p.push(v); x.update(v);
        match def(&p) {
            Some(d) => { cover("mature"); check(x.mature(), "moving average is mature from its maturity on"); close(x.value(), d, "moving average equals its definition"); }
            None => { cover("immature"); check(!x.mature(), "moving average is not mature before its maturity"); }
        }
        check(x.mature() == (i + 1 >= x.maturity() as u64), "moving average matures after the announced number of updates");
    }
}
/// moving averages constructed from their codes are the ones the parameters describe. cfg: [n][kind][period]
#[no_mangle] pub extern "C" fn h_i01c(cfg: u64) {
    let (n, kind, period) = (cfg / 100, cfg / 10 % 10, (cfg % 10) as u32);
    let (params, _) = ma(kind, period, 0);
    let code = [adler32::SMA, adler32::EMA, adler32::EMA2, adler32::DEMA, adler32::SMMA, adler32::KAMA, adler32::ALMA][kind as usize];
    check(code == juno::math::adler32(["sma", "ema", "ema2", "dema", "smma", "kama", "alma"][kind as usize]), "moving average codes are the checksums of their names");
    let (mut x, mut y) = (params.construct(), ma_from_adler32(code, period));
    for _ in 0..n { let v = price(); x.update(v); y.update(v); check(x.mature() == y.mature(), "a moving average made from its code matures like the described one"); same(x.value(), y.value(), "a moving average made from its code is the described one"); }
}

/// longer periods and series. cfg: [n n n][kind][period period period]
#[no_mangle] pub extern "C" fn h_i01l(cfg: u64) {
    let (n, kind, period) = (cfg / 10000, cfg / 1000 % 10, (cfg % 1000) as u32);
    let (params, def) = ma(kind, period, 0);
    let mut x = params.construct();
    let mut p = vec![];
    for i in 0..n {
        let v = price(); p.push(v); x.update(v);
        if i + 1 == n || i + 2 == x.maturity() as u64 || i + 1 == x.maturity() as u64 || i + 1 == 2 * x.maturity() as u64 {
            match def(&p) {
                Some(d) => { cover("mature"); check(x.mature(), "moving average is mature from its maturity on"); close(x.value(), d, "moving average equals its definition"); }
                None => { cover("immature"); check(!x.mature(), "moving average is not mature before its maturity"); }
            }
        }
        check(x.mature() == (i + 1 >= x.maturity() as u64), "moving average matures after the announced number of updates");
    }
}

/// direction of the market at step i in one of several fixed patterns (0: every direction)
fn step(pattern: u64, i: usize) -> u64 { match pattern { 0 => 9, 1 => 0, 2 => i as u64 % 2, 3 => [0, 1, 1, 0, 1, 0, 0, 0, 1, 1][i % 10], 4 => [0, 2, 1, 3, 4, 1, 0][i % 7], _ => [1, 1, 0, 3, 1, 4, 2, 0, 0, 4, 1][i % 11] } }
/// a price above (0) or below (1) the last one
fn directed(last: Option<&f64>, pattern: u64, i: usize) -> f64 {
    let v = price();
    if let Some(p) = last { match step(pattern, i) { 0 => assume(v > *p), 1 | 3 => assume(v < *p), 2 | 4 => assume(v == *p), _ => {} } }
    v
}
struct Hlc { h: Vec<f64>, l: Vec<f64>, c: Vec<f64>, pattern: u64 }
impl Hlc {
    #[allow(dead_code)] fn new() -> Self { Hlc { h: vec![], l: vec![], c: vec![], pattern: 0 } }
    fn of(pattern: u64) -> Self { Hlc { h: vec![], l: vec![], c: vec![], pattern } }
    fn push(&mut self) -> (f64, f64, f64) {
        let (h, l, c) = (price(), price(), price()); assume(l <= c); assume(c <= h);
        let i = self.h.len();
        if i > 0 {
            let (p, q) = (self.h[i - 1], self.l[i - 1]);
            match step(self.pattern, i) { // rising, falling, inside, outside reaching higher, outside reaching lower
                0 => { assume(h > p); assume(l > q); assume(c > p) }
                1 => { assume(l < q); assume(h < p); assume(c < q) }
                2 => { assume(h < p); assume(l > q) }
                3 => { assume(h > p); assume(l < q); assume(h - p > q - l) }
                4 => { assume(h > p); assume(l < q); assume(h - p < q - l) }
                _ => {}
            }
            if self.pattern > 0 { let y = self.c[i - 1]; if step(self.pattern, i) != 2 { assume(h >= y); assume(l <= y) } }
        }
        self.h.push(h); self.l.push(l); self.c.push(c); (h, l, c)
    }
    fn dir(&self, i: usize) -> (f64, f64) {
        let (up, dn) = (self.h[i] - self.h[i - 1], self.l[i - 1] - self.l[i]);
        if up > dn && up > 0.0 { (up, 0.0) } else if dn > up && dn > 0.0 { (0.0, dn) } else if up == dn && up > 0.0 { (up, dn) } else { (0.0, 0.0) }
    }
    fn tr(&self, i: usize) -> f64 {
        let pc = self.c[i - 1];
        let hi = if self.h[i] > pc { self.h[i] } else { pc };
        let lo = if self.l[i] < pc { self.l[i] } else { pc };
        hi - lo
    }
    /// Wilder's running sum: the first n-1 changes summed, later ones decaying it by 1/n
    fn wsum(&self, n: usize, f: impl Fn(usize) -> f64) -> Option<f64> {
        let t = self.h.len();
        if t < n { return None; }
        let mut s = 0.0;
        for i in 1..t { if i < n { s += f(i) } else { s = s * ((n as f64 - 1.0) / n as f64) + f(i) } }
        Some(s)
    }
    fn dm(&self, n: usize) -> Option<(f64, f64)> { Some((self.wsum(n, |i| self.dir(i).0)?, self.wsum(n, |i| self.dir(i).1)?)) }
    fn dx(&self, n: usize) -> Option<f64> { let (p, m) = self.dm(n)?; Some(if p + m == 0.0 { 0.0 } else { 100.0 * abs(p - m) / (p + m) }) }
}
fn rsi(p: &[f64], n: usize) -> Option<f64> {
    if p.len() < n + 1 { return None; }
    let up: Vec<f64> = (1..p.len()).map(|i| if p[i] > p[i - 1] { p[i] - p[i - 1] } else { 0.0 }).collect();
    let dn: Vec<f64> = (1..p.len()).map(|i| if p[i] < p[i - 1] { p[i - 1] - p[i] } else { 0.0 }).collect();
    let (u, d) = (wilder(&up, n)?, wilder(&dn, n)?);
    Some(if u == 0.0 { 0.0 } else if d == 0.0 { 100.0 } else { 100.0 - 100.0 / (1.0 + u / d) })
}
/// oscillators. cfg: [n n][kind][period][period2][period3]; kinds: 0 rsi, 1 stoch, 2 macd, 3 dm, 4 di, 5 dx, 6 adx
#[no_mangle] pub extern "C" fn h_i02(cfg: u64) { osc(cfg, 1) }
/// the same, checked for their ranges
#[no_mangle] pub extern "C" fn h_i04(cfg: u64) { osc(cfg, 2) }
/// the same, checked for maturity only
#[no_mangle] pub extern "C" fn h_i03(cfg: u64) { osc(cfg, 0) }
fn within(v: f64, lo: f64, hi: f64, m: &str) { check(v == v, "indicator values are numbers"); le(lo, v, m); le(v, hi, m); }
fn osc(cfg: u64, what: u64) { oscillator(cfg / 10000, cfg / 1000 % 10, (cfg / 100 % 10) as usize, (cfg / 10 % 10) as usize, (cfg % 10) as usize, 0, what) }
/// longer periods and series along one pattern of directions. cfg: [pattern][n n][kind][period period][period2 period2][period3]
#[no_mangle] pub extern "C" fn h_i02l(cfg: u64) { flags(LIN); oscillator(cfg / 1000000 % 100, cfg / 100000 % 10, (cfg / 1000 % 100) as usize, (cfg / 10 % 100) as usize, (cfg % 10) as usize, cfg / 100000000, 1) }
#[no_mangle] pub extern "C" fn h_i04l(cfg: u64) { flags(LIN); oscillator(cfg / 1000000 % 100, cfg / 100000 % 10, (cfg / 1000 % 100) as usize, (cfg / 10 % 100) as usize, (cfg % 10) as usize, cfg / 100000000, 2) }
#[no_mangle] pub extern "C" fn h_i03l(cfg: u64) { flags(LIN); oscillator(cfg / 1000000 % 100, cfg / 100000 % 10, (cfg / 1000 % 100) as usize, (cfg / 10 % 100) as usize, (cfg % 10) as usize, cfg / 100000000, 0) }
fn oscillator(n: u64, kind: u64, p1: usize, p2: usize, p3: usize, pattern: u64, what: u64) {
    let u = |x: usize| x as u32;
    let mat = |m: bool, t: u32, i: u64| check(m == (i + 1 >= t as u64), "indicator matures after the announced number of updates");
    match kind {
        0 => { let mut x = Rsi::new(u(p1)); let mut p = vec![];
            for i in 0..n { let v = directed(p.last(), pattern, i as usize); p.push(v); x.update(v); mat(x.mature(), x.maturity(), i);
                if what == 1 { match rsi(&p, p1) { Some(d) => { check(x.mature(), "RSI is mature"); close(x.value, d, "RSI equals its definition"); cover("mature") } None => check(!x.mature(), "RSI is immature") } }
                if what == 2 && x.mature() { within(x.value, 0.0, 100.0, "RSI lies in 0..100"); } } }
        1 => { let mut x = Stoch::new(u(p1), u(p2), u(p3)); let mut s = Hlc::of(pattern); let (mut f, mut ks) = (vec![], vec![]);
            for i in 0..n { let (h, l, c) = s.push(); x.update(h, l, c); mat(x.mature(), x.maturity(), i);
                if what == 1 {
                    let t = i as usize + 1;
                    if t >= p1 {
                        let (mut hi, mut lo) = (s.h[t - p1], s.l[t - p1]);
                        for j in t - p1..t { hi = f64::max(hi, s.h[j]); lo = f64::min(lo, s.l[j]); }
                        f.push(if hi == lo { 0.0 } else { 100.0 * (c - lo) / (hi - lo) });
                        if let Some(k) = sma(&f, p2) { ks.push(k); }
                    }
                    match sma(&ks, p3) { Some(d) => { check(x.mature(), "stochastic is mature"); close(x.k, ks[ks.len() - 1], "stochastic K equals its definition"); close(x.d, d, "stochastic D equals its definition"); cover("mature") } None => check(!x.mature(), "stochastic is immature") }
                }
                if what == 2 && x.mature() { within(x.k, 0.0, 100.0, "stochastic K lies in 0..100"); within(x.d, 0.0, 100.0, "stochastic D lies in 0..100"); } } }
        2 => { let (a, b) = if p1 == 0 { (12, 26) } else { (p1, p2) };
            let mut x = Macd::new(u(a), u(b), u(p3)); let mut p = vec![]; let mut ms = vec![];
            let (sa, sb) = if p1 == 0 { (0.15, 0.075) } else { (2.0 / (a as f64 + 1.0), 2.0 / (b as f64 + 1.0)) };
            for i in 0..n { let v = directed(p.last(), pattern, i as usize); p.push(v); x.update(v); mat(x.mature(), x.maturity(), i);
                if what == 1 {
                    if let (Some(s), Some(l)) = (ema(&p, a, sa), ema(&p, b, sb)) { ms.push(s - l);
                        let g = expo(ms[0], &ms[1..], 2.0 / (p3 as f64 + 1.0));
                        if x.mature() { cover("mature"); close(x.value, s - l, "MACD equals its definition"); close(x.signal, g, "MACD signal equals its definition"); close(x.histogram, s - l - g, "MACD histogram equals its definition"); }
                        check(x.mature() == (ms.len() >= p3), "MACD matures with its signal"); }
                }
                if what == 2 && x.mature() { for v in [x.value, x.signal, x.histogram] { within(v, -1e7, 1e7, "MACD stays within the price range"); } } } }
        3 => { let mut x = DM::new(u(p1)); let mut s = Hlc::of(pattern);
            for i in 0..n { let (h, l, _) = s.push(); x.update(h, l); mat(x.mature(), x.maturity(), i);
                if what == 1 { match s.dm(p1) { Some((p, m)) => { check(x.mature(), "directional movement is mature"); close(x.plus_value, p, "directional movement up equals its definition"); close(x.minus_value, m, "directional movement down equals its definition"); cover("mature") } None => check(!x.mature(), "directional movement is immature") } }
                if what == 2 && x.mature() { within(x.plus_value, 0.0, 1e8, "directional movement is not negative"); within(x.minus_value, 0.0, 1e8, "directional movement is not negative"); } } }
        4 => { let mut x = DI::new(u(p1)); let mut s = Hlc::of(pattern);
            for i in 0..n { let (h, l, c) = s.push(); x.update(h, l, c); mat(x.mature(), x.maturity(), i);
                if what == 1 { match (s.dm(p1), s.wsum(p1, |i| s.tr(i))) { (Some((p, m)), Some(r)) => { check(x.mature(), "directional indicator is mature");
                        close(x.plus_value, if r == 0.0 { 0.0 } else { 100.0 * p / r }, "directional indicator up equals its definition"); close(x.minus_value, if r == 0.0 { 0.0 } else { 100.0 * m / r }, "directional indicator down equals its definition"); cover("mature") } _ => check(!x.mature(), "directional indicator is immature") } }
                if what == 2 && x.mature() { within(x.plus_value, 0.0, 100.0, "directional indicator lies in 0..100"); within(x.minus_value, 0.0, 100.0, "directional indicator lies in 0..100"); } } }
        5 => { let mut x = DX::new(u(p1)); let mut s = Hlc::of(pattern);
            for i in 0..n { let (h, l, _) = s.push(); x.update(h, l); mat(x.mature(), x.maturity(), i);
                if what == 1 { match s.dx(p1) { Some(d) => { check(x.mature(), "DX is mature"); close(x.value, d, "DX equals its definition"); cover("mature") } None => check(!x.mature(), "DX is immature") } }
                if what == 2 && x.mature() { within(x.value, 0.0, 100.0, "DX lies in 0..100"); } } }
        _ => { let mut x = Adx::new(u(p1)); let mut s = Hlc::of(pattern); let mut dx = DX::new(u(p1)); let mut d = vec![]; // DX has its own check
            for i in 0..n { let (h, l, _) = s.push(); x.update(h, l); mat(x.mature(), x.maturity(), i);
                if what == 1 {
                    dx.update(h, l); if dx.mature() { d.push(dx.value); }
                    if x.mature() { match wilder(&d, p1) { Some(d) => { close(x.value, d, "ADX equals its definition"); cover("mature") } None => check(false, "ADX is mature before its definition has a value") } }
                }
                if what == 2 { within(x.value, 0.0, 100.0, "ADX lies in 0..100"); } } }
    }
}
/// moving averages stay within the range of the prices seen. cfg: [n n][kind][period][variant]
#[no_mangle] pub extern "C" fn h_i04m(cfg: u64) {
    let (n, kind, period, variant) = (cfg / 1000, cfg / 100 % 10, (cfg / 10 % 10) as u32, cfg % 10);
    let (params, _) = ma(kind, period, variant);
    let mut x = params.construct();
    let (lo, hi) = (price(), price());
    assume(lo <= hi);
    for _ in 0..n {
        let v = price(); assume(lo <= v); assume(v <= hi);
        x.update(v);
        if x.mature() {
            let y = x.value();
            check(y == y, "moving averages are numbers");
            if kind != 3 { le(lo, y, "a moving average is not below every price"); le(y, hi, "a moving average is not above every price"); }
            else { le(lo - 3.0 * (hi - lo), y, "a double exponential average stays near the prices"); le(y, hi + 3.0 * (hi - lo), "a double exponential average stays near the prices"); }
            if any_bool() { assume(lo == hi); close(y, lo, "a moving average of a constant is that constant"); cover("constant"); return; }
        }
    }
}
/// maturity of the moving averages. cfg: [n n][kind][period period]
#[no_mangle] pub extern "C" fn h_i03m(cfg: u64) {
    let (n, kind, period) = (cfg / 1000, cfg / 100 % 10, (cfg % 100) as u32);
    let (params, _) = ma(kind, period, 0);
    let mut x = params.construct();
    check(!x.mature(), "nothing is mature before its first update");
    for i in 0..n {
        let was = x.value();
        x.update(price());
        check(x.mature() == (i + 1 >= x.maturity() as u64), "moving average matures after the announced number of updates");
        if x.mature() { cover("mature"); check(kind == 3 || x.value() > 0.0, "a mature moving average has a value"); }
        let _ = was;
    }
}
