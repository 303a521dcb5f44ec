//! Primitives: multiples, timestamps, intervals, rounding, filters, checksums, symbols.
use crate::trade::{fit, rdown, rhalf};
use crate::vf::*;
use juno::filters::{Price, Size};
use juno::math::*;
use juno::*;
use std::str::FromStr;

const DAY: u64 = 86_400_000;
fn multiple(i: u64) -> u64 { [1, 2, 3, 7, 10, 1000, 60_000, 300_000, 3_600_000, 14_400_000, 86_400_000, 604_800_000, 259_200_001, 1 << 40][i as usize] }

/// integer multiples, any 64-bit value
#[no_mangle] pub extern "C" fn h_m01a(cfg: u64) {
    let m = multiple(cfg);
    let v = u64_in(0, u64::MAX);
    let f = floor_multiple(v, m);
    check(f <= v && v - f < m && f % m == 0, "floor_multiple is the largest multiple not above");
    if v <= u64::MAX - m {
        let c = ceil_multiple(v, m);
        check(c >= v && c - v < m && c % m == 0, "ceil_multiple is the smallest multiple not below");
        check(Interval(v).ceil(Interval(m)).0 == c, "Interval::ceil is the smallest multiple not below");
        if c == v { cover("exact multiple"); } else { cover("between multiples"); }
    }
}
/// symbolic multiple: value = q * m + r
#[no_mangle] pub extern "C" fn h_m01s(cfg: u64) {
    let b = 1u64 << cfg;
    let (q, m, r) = (u64_in(0, b), u64_in(1, b), u64_in(0, b));
    assume(r < m);
    let v = q * m + r;
    check(floor_multiple(v, m) == q * m, "floor_multiple for any multiple");
    check(ceil_multiple(v, m) == if r == 0 { q * m } else { q * m + m }, "ceil_multiple for any multiple");
}
/// multiples counted from an offset, including values before it
#[no_mangle] pub extern "C" fn h_m01o(cfg: u64) {
    let m = multiple(cfg);
    let o = [0, 1, 5, 345_600_000][(choice(4)) as usize];
    let v = u64_in(0, 1 << 62);
    // smallest x >= v with x = o (mod m)
    let c = ceil_multiple_offset(v, m, o);
    check(c >= v && c - v < m && c % m == o % m, "ceil_multiple_offset is the next point of the grid");
    let first = o % m; // first grid point
    if v >= first {
        let f = floor_multiple_offset(v, m, o);
        check(f <= v && v - f < m && f % m == o % m, "floor_multiple_offset is the previous point of the grid");
    }
    if v < o { cover("before the offset"); }
}
/// timestamps below a week, weeks
#[no_mangle] pub extern "C" fn h_m01t(cfg: u64) {
    let i = multiple(cfg);
    let v = u64_in(0, 1 << 53);
    let o = if i == 604_800_000 { 4 * DAY } else { 0 }; // 1970-01-05 was a Monday
    let c = Timestamp(v).ceil(Interval(i)).0;
    check(c >= v && c - v < i && c % i == o, "Timestamp::ceil is the next start of an interval");
    if v >= o {
        let f = Timestamp(v).floor(Interval(i)).0;
        check(f <= v && v - f < i && f % i == o, "Timestamp::floor is the start of the interval containing it");
        check((f == v) == (c == v), "floor and ceil agree on starts");
    }
}
/// days since 1970-01-01 of year-month-01
fn month_start(y: u64, m: u64) -> u64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y / 400; let yoe = y - era * 400;
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146_097 + doe - 719_468
}
/// months: cfg = year; any month of it, any millisecond of that month
#[no_mangle] pub extern "C" fn h_m01m(cfg: u64) {
    let m = choice(12) + 1;
    let a = month_start(cfg, m) * DAY;
    let b = if m == 12 { month_start(cfg + 1, 1) } else { month_start(cfg, m + 1) } * DAY;
    let day = a + choice((b - a) / DAY) * DAY;
    let t = day + u64_in(0, DAY - 1);
    check(Timestamp(t).floor(Interval::MONTH_MS).0 == a, "Timestamp::floor to months is the first of the month");
    check(Timestamp(t).ceil(Interval::MONTH_MS).0 == if t == a { a } else { b }, "Timestamp::ceil to months is the first of a month, not below");
    if t == a { cover("exact month start"); }
}

/// rounding. cfg = precision
#[no_mangle] pub extern "C" fn h_m03r(cfg: u64) {
    let p = cfg as u32;
    let v = f64_in(0.0, 1e6);
    let k = [1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18][cfg as usize];
    let d = round_down(v, p);
    le(d, v, "round_down never exceeds the value");
    le(v - d, 1.0 / k, "round_down stays within one unit of the value");
    close(d * k, (v * k).floor(), "round_down yields a whole number of units");
    let h = round_half_up(v, p);
    le(h - v, 0.5 / k, "round_half_up stays within half a unit above");
    le(v - h, 0.5 / k, "round_half_up stays within half a unit below");
    close(h * k, (v * k).round(), "round_half_up yields a whole number of units");
}
fn unit(k: u64) -> f64 { u64_in(0, k) as f64 }
/// filters: cfg: 0 size, 1 price; limits symbolic
#[no_mangle] pub extern "C" fn h_m03f(cfg: u64) {
    let (mx, st) = (cfg / 10 % 10, cfg / 100 % 10);
    let min = f64_in(0.0, 1e3);
    let max = if mx == 0 { 0.0 } else { f64_in(1e-3, 1e6) };
    let step = if st == 0 { 0.0 } else { f64_in(1e-6, 10.0) };
    let v = f64_in(0.0, 1e6);
    let r = if cfg % 10 == 0 { Size { min, max, step }.round_down(v) } else { Price { min, max, step }.round_down(v) };
    close(r, fit(&Size { min, max, step }, v), "filter: rounding down gives the largest admissible value");
    le(r, v, "filter: rounding down never exceeds the value");
    if max > 0.0 { le(r, max, "filter: rounding down respects the maximum"); }
    if v < min { check(r == 0.0, "filter: below the minimum nothing is admissible"); cover("below the minimum"); }
    if step == 0.0 && v >= min && (max == 0.0 || v <= max) { check(r == v, "filter: an admissible value is kept"); cover("kept"); }
}
/// filters on whole numbers, where arithmetic is exact: valid, round_up, round_down agree. cfg = step
#[no_mangle] pub extern "C" fn h_m03v(cfg: u64) {
    let step = (cfg / 10) as f64;
    let size = cfg % 10 == 0;
    let one = if step > 0.0 { step } else { 1.0 };
    let min = one * [0.0, 1.0, 7.0][choice(3) as usize];
    let max = one * [0.0, 7.0, 8.0, 1000.0][choice(4) as usize];
    let v = unit(100_000);
    assume(max == 0.0 || min <= max);
    let (d, ok) = if size { let s = Size { min, max, step }; (s.round_down(v), s.valid(v)) } else { let s = Price { min, max, step }; (s.round_down(v), s.valid(v)) };
    check(ok == (v >= min && d == v), "filter: valid accepts exactly the values rounding leaves unchanged");
    if d != 0.0 { check(if size { Size { min, max, step }.valid(d) } else { Price { min, max, step }.valid(d) }, "filter: what rounding down returns is valid"); cover("valid"); }
    if size {
        let s = Size { min, max, step };
        let u = s.round_up(v);
        if v >= min { check(max == 0.0 || u <= max, "filter: rounding up respects the maximum"); if max == 0.0 || v <= max { check(u >= v, "filter: rounding up is not below the value"); } check(s.valid(u), "filter: what rounding up returns is valid"); if ok { check(u == v, "filter: rounding up keeps a valid value"); } }
        else { check(u == 0.0, "filter: below the minimum nothing is admissible"); }
    }
}
/// checksum of any ASCII string of cfg bytes
#[no_mangle] pub extern "C" fn h_m04(cfg: u64) {
    let mut b = [0u8; 16];
    let n = cfg as usize;
    for i in 0..n { b[i] = u64_in(0, 127) as u8; }
    let s = match std::str::from_utf8(&b[..n]) { Ok(s) => s, Err(_) => return };
    let (mut x, mut y) = (1u64, 0u64);
    for i in 0..n { x += b[i] as u64; y += x; }
    check(adler32(s) as u64 == (y % 65521) << 16 | x % 65521, "adler32 is Adler-32");
}
/// cfg: which of the components y M w d h m s ms are present (bits 7..0), each any count up to 9 that keeps the text canonical
#[no_mangle] pub extern "C" fn h_m02a(cfg: u64) {
    let f: [u64; 8] = [1, 1000, 60_000, 3_600_000, 86_400_000, 604_800_000, 2_629_746_000, 31_556_952_000];
    let hi = [9, 9, 9, 9, 6, 3, 9, 9];
    let mut v = 0;
    for i in 0..8 { if cfg >> i & 1 == 1 { v += f[i] * if i >= 6 && cfg >> 6 == 3 { 1 + choice(9) } else { u64_in(1, hi[i]) }; } }
    let s = Interval(v).to_string();
    check(Interval::from_str(&s) == Ok(Interval(v)), "an interval's text parses back to it");
}
/// cfg: [lowest value][3 digits: number of further values]
#[no_mangle] pub extern "C" fn h_m02c(cfg: u64) {
    let v = u64_in(cfg / 1000, cfg / 1000 + cfg % 1000);
    let s = Interval(v).to_string();
    check(Interval::from_str(&s) == Ok(Interval(v)), "an interval's text parses back to it");
}
/// interval text: D stands for any digit, L for any letter of a set of unit and non-unit letters
#[no_mangle] pub extern "C" fn h_m02b(cfg: u64) {
    let shape: &[u8] = [&b"Dms"[..], b"DDDs", b"DmDDs", b"DdDhDm", b"DDDDDDDDDDDDDDDDDDDDDms", b"DDDDDDDDDDDDy", b"Dq", b"DDmm", b"DyDMDwDdDhDmDsDms", b"DDDDDDDDDDDDDDDDDDDDDq", b"DL", b"DLL", b"ms", b"", b"Dd DDDh", b"DDDDDDDDDDDDDDDDDDDDmsDDDDDDDDDDDDDDDDDDDDms"][cfg as usize];
    let letters = b"yMwdhmsqYD";
    let mut b = [0u8; 64];
    let n = shape.len();
    for i in 0..n { b[i] = match shape[i] { b'D' => b'0' + u64_in(0, 9) as u8, b'L' => letters[choice(10) as usize], c => c }; }
    let s = match std::str::from_utf8(&b[..n]) { Ok(s) => s, Err(_) => return };
    // reference: the sum of number x unit, an error if any unit is unknown or the sum does not fit
    let mut sum: Option<u128> = Some(0);
    let mut i = 0;
    let mut groups = 0;
    let clamp = |x: u128| if x > 1 << 64 { 1u128 << 64 } else { x };
    while i < n {
        let digit = |k: usize| k < n && (shape[k] == b'D');
        let letter = |k: usize| k < n && shape[k] != b'D' && shape[k] != b' ';
        if !digit(i) { i += 1; continue; }
        let mut v = 0u128;
        while digit(i) { v = clamp(v * 10 + (b[i] - b'0') as u128); i += 1; }
        let st = i;
        while letter(i) { i += 1; }
        let f: Option<u128> = match &b[st..i] { b"ms" => Some(1), b"s" => Some(1000), b"m" => Some(60_000), b"h" => Some(3_600_000), b"d" => Some(86_400_000), b"w" => Some(604_800_000), b"M" => Some(2_629_746_000), b"y" => Some(31_556_952_000), b"" => { continue } _ => None };
        groups += 1;
        sum = match (sum, f) { (Some(a), Some(f)) => Some(clamp(a + v * f)), _ => None };
    }
    let r = Interval::from_str(s);
    match sum {
        Some(x) if x <= u64::MAX as u128 => { if groups > 0 { cover("ok"); check(r == Ok(Interval(x as u64)), "interval text is the sum of its components"); } }
        _ => { cover("rejected"); check(r.is_err(), "unknown units and sums that do not fit are errors"); }
    }
}
/// cfg = range in ms from a start picked by the last digit
#[no_mangle] pub extern "C" fn h_m05a(cfg: u64) {
    let base = [0, 1_600_000_000_000, 951_782_399_990, 4_102_444_799_000, 253_402_300_799_000 - 1][(cfg % 10) as usize];
    let v = base + u64_in(0, cfg / 10 % 100) * [1, 10, 100, 1000, 60_000, 3_600_000, 86_400_000][(cfg / 1000) as usize];
    let s = Timestamp(v).to_string();
    check(Timestamp::from_str(&s) == Ok(Timestamp(v)), "a timestamp's text parses back to it");
}
fn two(b: &mut [u8], v: u64) { b[0] = b'0' + (v / 10) as u8; b[1] = b'0' + (v % 10) as u8; }
/// cfg: year*10 + 0 date, 1 date and time of day, 2 with an offset; every month, day and time of day symbolic
#[no_mangle] pub extern "C" fn h_m05b(cfg: u64) {
    let y = cfg / 10;
    let mut b = *b"0000-00-00T00:00:00Z     ";
    two(&mut b[0..], y / 100); two(&mut b[2..], y % 100);
    let mut put = |i: usize, hi: u64| -> u64 { let (p, q) = (u64_in(0, hi), u64_in(0, 9)); b[i] = b'0' + p as u8; b[i + 1] = b'0' + q as u8; p * 10 + q };
    let m = choice(13); let d = put(8, 3);
    let (h, mi, s) = if cfg % 10 > 0 { (put(11, 2), put(14, 5), put(17, 5)) } else { (0, 0, 0) };
    two(&mut b[5..], m);
    let n = if cfg % 10 > 0 { 20 } else { 10 };
    let t = match std::str::from_utf8(&b[..n]) { Ok(s) => s, Err(_) => return };
    let days = if m == 0 { 0 } else { (if m == 12 { month_start(y + 1, 1) } else { month_start(y, m + 1) }) - month_start(y, m) };
    let r = Timestamp::from_str(t);
    if d >= 1 && d <= days && h < 24 {
        cover("valid date");
        check(r == Ok(Timestamp((month_start(y, m) + d - 1) * DAY + h * 3_600_000 + mi * 60_000 + s * 1000)), "date text parses to its timestamp");
    } else { cover("no such date"); check(r.is_err(), "text that is no date is rejected"); }
}
#[no_mangle] pub extern "C" fn h_sym(cfg: u64) {
    let mut b = [0u8; 16];
    let n = cfg as usize;
    let d = choice(cfg) as usize;
    for i in 0..n { b[i] = u64_in(33, 126) as u8; if i < d { assume(b[i] != b'-'); } }
    b[d] = b'-';
    let s = match std::str::from_utf8(&b[..n]) { Ok(s) => s, Err(_) => return };
    check(s.base_asset().len() == d && s.quote_asset().len() == n - d - 1, "a symbol splits at its first dash");
    let (x, y) = s.assets();
    check(x.len() == d && y.len() == n - d - 1, "a symbol's assets are its base and quote");
    for i in 0..d { check(x.as_bytes()[i] == b[i], "base asset text"); }
    for i in d + 1..n { check(y.as_bytes()[i - d - 1] == b[i], "quote asset text"); }
    let same = |a: &str, b: &str| { check(a.len() == b.len(), "asset text"); for i in 0..a.len().min(b.len()) { check(a.as_bytes()[i] == b.as_bytes()[i], "asset text"); } };
    same(s.base_asset(), x); same(s.quote_asset(), y);
    let mut k = 0;
    for a in juno::symbol::iter_assets([s, "ab-c", s]) { match k { 0 | 4 => same(a, x), 1 | 5 => same(a, y), 2 => same(a, "ab"), _ => same(a, "c") } k += 1; }
    check(k == 6, "the assets of symbols are the base and quote of each in order");
    if d == 0 { cover("no base"); } if d + 1 == n { cover("no quote"); }
}
