//! Advice filters, candle aggregation and span arithmetic.
use crate::strat::filtered;
use crate::vf::*;
use juno::utils::*;
use juno::*;

/// any advice (its four discriminants are 0..3 in order of declaration)
fn advice() -> Advice { unsafe { std::mem::transmute::<u8, Advice>(u64_in(0, 3) as u8) } }
/// cfg: [n][what][level]; what: 0 changed, 1 changed disabled, 2 persistence, 3 persistence returning the previous advice, 4-6 mid trend current/previous/ignore
#[no_mangle] pub extern "C" fn h_u01(cfg: u64) {
    let (n, what, level) = (cfg / 100, cfg / 10 % 10, (cfg % 10) as usize);
    let mut v: Vec<Advice> = vec![];
    let mut changed = Changed::new(what == 0);
    let mut pers = Persistence::new(level as u32, what == 3);
    let mut mid = MidTrend::new([MidTrendPolicy::Current, MidTrendPolicy::Previous, MidTrendPolicy::Ignore][if what >= 4 { what as usize - 4 } else { 0 }]);
    check(changed.maturity() == 1 && pers.maturity() as usize == level + 1 && mid.maturity() == if what > 4 { 2 } else { 1 }, "advice filters announce how many advices they look at");
    let mut prev = Advice::None;
    let (mut last, mut age) = (Advice::None, 0);
    for i in 0..n as usize {
        let a = advice();
        v.push(a);
        match what {
            0 => {
                let r = changed.update(a);
                if a != Advice::None && a != last { last = a; age = 1; cover("changed"); check(r == a, "a changed advice is let through"); }
                else { age += 1; cover("unchanged"); check(r == Advice::None, "an unchanged or empty advice is held back"); }
                check(changed.prevailing_advice() == last, "the prevailing advice is the last one let through");
                check(changed.prevailing_advice_age() == age, "the prevailing advice's age counts the updates since");
            }
            1 => check(changed.update(a) == a, "a disabled changed filter lets everything through"),
            2 | 3 => {
                let mut persisted = i >= level;
                if persisted { for j in i - level..i { if v[j] != a { persisted = false; } } }
                if persisted { prev = a; cover("persisted"); } else { cover("not persisted"); }
                check(pers.update(a) == if persisted { a } else if what == 3 { prev } else { Advice::None }, "persistence lets an advice through once it has lasted");
            }
            _ => {
                let r = mid.update(a);
                check(r == filtered(&v, 0, what == 6)[i], "mid trend holds back just the advice running at the start, if it is to be ignored");
            }
        }
    }
}
#[no_mangle] pub extern "C" fn h_u01c(_: u64) {
    let (a, b) = (advice(), advice());
    check(combine(a, b) == if a == Advice::None || b == Advice::None { Advice::None } else if a == b { a } else { Advice::Liquidate }, "combining advices");
}

const MIN: u64 = 60_000;
const DAY: u64 = 86_400_000;
/// start of the buffer period containing t: whole periods since the epoch, weeks from Monday, calendar months
fn period(t: u64, big: u64) -> u64 { if big == 7 * DAY { (t - 4 * DAY) / big * big + 4 * DAY } else { t / big * big } }
/// cfg: [n][k][kind]; kind: 0 minutes into k minutes, 1 days into weeks (k ignored), 2 k days into k days (disabled), 3 days into months at the start of 2021
#[no_mangle] pub extern "C" fn h_u02(cfg: u64) {
    flags(INT);
    let (n, k, kind) = (cfg / 100, cfg / 10 % 10, cfg % 10);
    let (small, big) = match kind { 0 => (MIN, k * MIN), 1 => (DAY, 7 * DAY), 2 => (k * DAY, k * DAY), _ => (if k == 0 { DAY / 2 } else { k * DAY }, Interval::MONTH_MS.0) };
    let mut t = match kind {
        0 => u64_in(0, 1 << 24) * big + choice(k) * small,
        1 => u64_in(0, 1 << 11) * big + 4 * DAY + choice(7) * DAY,
        2 => u64_in(0, 1 << 11) * big,
        _ => 1_609_459_200_000 + (27 + choice(4)) * DAY, // 28 to 31 January 2021
    };
    let start = |t: u64| if kind < 3 { period(t, big) } else if t < 1_609_459_200_000 + 31 * DAY { 1_609_459_200_000 } else { 1_609_459_200_000 + 31 * DAY };
    let mut x = BufferedCandle::new(Interval(small), if kind == 2 && any_bool() { None } else { Some(Interval(big)) });
    let mut part: Option<Candle> = None;
    for i in 0..n {
        if i > 0 { t += small * (1 + choice(if kind == 1 { 5 } else if k < 3 { 4 } else { k + 2 })); }
        let close = f64_in(0.01, 1e6); let open = f64_in(0.01, 1e6); let high = f64_in(0.01, 1e6); let low = f64_in(0.01, 1e6); let volume = f64_in(0.0, 1e9);
        let c = Candle { time: Timestamp(t), open, high, low, close, volume };
        let s = start(t);
        let last = start(t + small) != s;
        let mut want = None;
        if kind != 2 {
            if let Some(p) = part { if p.time.0 != s { if last { return; } want = Some(p); part = None; cover("gap over the end"); } }
        }
        let m = match part {
            None => Candle { time: Timestamp(s), open, high, low, close, volume },
            Some(p) => Candle { time: p.time, open: p.open, high: if high > p.high { high } else { p.high }, low: if low < p.low { low } else { p.low }, close, volume: p.volume + volume },
        };
        if kind == 2 { want = Some(c); } else if last { want = Some(m); part = None; cover("completed"); } else { part = Some(m); }
        match (x.buffer(&c), want) {
            (None, None) => {}
            (Some(g), Some(w)) => {
                check(g.time == w.time, "a merged candle starts at the start of its interval");
                same(g.open, w.open, "a merged candle opens with its first candle");
                same(g.high, w.high, "a merged candle's high is the highest inside");
                same(g.low, w.low, "a merged candle's low is the lowest inside");
                same(g.close, w.close, "a merged candle closes with its last candle");
                close_enough(g.volume, w.volume);
            }
            (None, Some(_)) => check(false, "a finished interval is merged"),
            (Some(_), None) => check(false, "no candle comes out before its interval is over"),
        }
    }
}
fn close_enough(a: f64, b: f64) { close(a, b, "a merged candle's volume is the sum inside") }

fn spans(n: u64, gap: u64) -> Vec<(u64, u64)> {
    let mut v = vec![]; let mut p = 0;
    for i in 0..n { let s = u64_in(0, u64::MAX); let e = u64_in(0, u64::MAX); assume(s >= p); if i > 0 && gap > 0 { assume(s > p); } assume(e > s); v.push((s, e)); p = e; }
    v
}
fn inside(v: &[(u64, u64)], x: u64) -> u64 { let mut c = 0; for s in v { if s.0 <= x && x < s.1 { c += 1; } } c }
fn tidy(v: &[(u64, u64)]) { for i in 0..v.len() { check(v[i].0 < v[i].1, "spans are not empty"); if i > 0 { check(v[i - 1].1 <= v[i].0, "spans are in order"); } } }
#[no_mangle] pub extern "C" fn h_u03m(cfg: u64) {
    flags(INT);
    let v = spans(cfg, 0);
    let r = merge_adjacent_spans(&v);
    tidy(&r);
    for i in 1..r.len() { check(r[i - 1].1 < r[i].0, "merged spans do not touch"); cover("apart"); }
    if r.len() < v.len() { cover("merged"); }
    let x = u64_in(0, u64::MAX);
    check(inside(&r, x) == inside(&v, x), "merging keeps the covered points");
}
#[no_mangle] pub extern "C" fn h_u03g(cfg: u64) {
    flags(INT);
    let v = spans(cfg, 0);
    let (start, end) = (u64_in(0, u64::MAX), u64_in(0, u64::MAX));
    assume(start <= end);
    let r = generate_missing_spans(start, end, &v);
    tidy(&r);
    if r.len() > 1 { cover("several missing"); }
    if r.len() == 0 { cover("nothing missing"); }
    let x = u64_in(0, u64::MAX);
    check(inside(&r, x) == if start <= x && x < end && inside(&v, x) == 0 { 1 } else { 0 }, "missing spans are what the existing ones leave of the range");
}
/// cfg: pages (up to cfg)
#[no_mangle] pub extern "C" fn h_u03p(cfg: u64) {
    flags(INT);
    let (interval, limit) = ([1, 60_000, 86_400_000, 1000][choice(4) as usize], [1, 2, 7, 1000][choice(4) as usize]);
    let start = u64_in(0, 1 << 50);
    let end = u64_in(0, 1 << 51);
    assume(start <= end); assume(end - start <= cfg * limit * interval);
    let mut at = start;
    let mut it = page(start, end, interval, limit);
    let mut n = 0;
    while let Some((s, e)) = it.next() {
        check(s == at, "pages follow each other");
        check(s < e, "pages are not empty");
        check(e <= end && e - s <= limit * interval, "pages keep to the limit");
        at = e; n += 1;
    }
    if n == 0 { cover("no page"); } else if n == 1 { cover("one page"); } else { cover("several pages"); }
    check(at == end, "pages cover the range");
}
