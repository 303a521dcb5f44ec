//! Genetic algorithm: evolution, selection, reinsertion, crossover, mutation, generation of parameters.
use crate::trade::de;
use crate::vf::*;
use juno::easing::Easing;
use juno::genetics::{crossover::*, mutation::*, reinsertion::*, selection::*, *};
use juno::indicators::*;
use juno::stop_loss::{self as sl, *};
use juno::strategies::*;
use juno::take_profit::{self as tp, *};
use juno::trading::*;
use juno::utils::MidTrendPolicy;
use juno::*;
use rand::prelude::*;

// ---- a chromosome with one gene of any value, whose fitness is that value -----------------------
#[derive(Clone)]
pub struct Ch { x: f64, id: u64 }
impl Chromosome for Ch {
    type Context = u64;
    fn len() -> usize { 1 }
    fn generate(_: &mut StdRng, id: &u64) -> Self { Ch { x: f64_in(-1e6, 1e6), id: *id } }
    fn cross(&mut self, o: &mut Self, _: usize) { std::mem::swap(&mut self.x, &mut o.x) }
    fn mutate(&mut self, _: &mut StdRng, _: usize, _: &u64) { self.x = f64_in(-1e6, 1e6) }
}
struct Fit;
impl Evaluation for Fit { type Chromosome = Ch; fn evaluate(&self, p: &mut [Individual<Ch>]) { for i in p { i.fitness = i.chromosome.x; } } }
struct AnyCross; impl Crossover for AnyCross { fn cross<T: Chromosome>(&self, _: &mut StdRng, a: &mut T, b: &mut T) { if choice(2) == 1 { a.cross(b, 0) } } }
struct AnyMut; impl Mutation for AnyMut { fn mutate<T: Chromosome>(&self, rng: &mut StdRng, c: &mut T, ctx: &T::Context) { if choice(2) == 1 { c.mutate(rng, 0, ctx) } } }
enum Sel { E(EliteSelection), T(TournamentSelection), G(GenerateRandomSelection) }
impl Selection for Sel {
    fn select<T: Chromosome>(&self, rng: &mut StdRng, p: &[Individual<T>], o: &mut Vec<Individual<T>>, rate: f32, ctx: &T::Context) {
        match self { Sel::E(s) => s.select(rng, p, o, rate, ctx), Sel::T(s) => s.select(rng, p, o, rate, ctx), Sel::G(s) => s.select(rng, p, o, rate, ctx) }
    }
}
enum Rei { E(EliteReinsertion), F(FitnessReinsertion), P(PureReinsertion) }
impl Reinsertion for Rei {
    fn selection_rate(&self) -> f32 { match self { Rei::E(r) => r.selection_rate(), Rei::F(r) => r.selection_rate(), Rei::P(r) => r.selection_rate() } }
    fn reinsert<T: Chromosome>(&self, rng: &mut StdRng, p: &[Individual<T>], o: &mut Vec<Individual<T>>, n: usize, ctx: &T::Context) {
        match self { Rei::E(r) => r.reinsert(rng, p, o, n, ctx), Rei::F(r) => r.reinsert(rng, p, o, n, ctx), Rei::P(r) => r.reinsert(rng, p, o, n, ctx) }
    }
}
fn nothing<T: Chromosome>(_: usize, _: &Generation<T>) {}
/// cfg: [population][generations][hall of fame 0: all][selection][reinsertion]
#[no_mangle] pub extern "C" fn h_g01(cfg: u64) {
    let d = |i: u32| (cfg / 10u64.pow(i)) % 10;
    let (pop, gens) = (d(4) as usize, d(3) as usize);
    let hof = if d(2) == 0 { pop } else { d(2) as usize };
    let sel = match d(1) { 0 => Sel::E(EliteSelection { shuffle: false }), 1 => Sel::E(EliteSelection { shuffle: true }), 2 => Sel::T(TournamentSelection::default()), _ => Sel::G(GenerateRandomSelection {}) };
    let rei = match d(0) { 0 => Rei::E(EliteReinsertion::default()), 1 => Rei::E(EliteReinsertion::new(0.5, 0.5)), 2 => Rei::F(FitnessReinsertion::new(1.5)), 3 => Rei::E(EliteReinsertion::new(0.1, 0.0)), _ => Rei::P(PureReinsertion {}) };
    let seed = u64_in(7, 7);
    let algo = GeneticAlgorithm::new(Fit, sel, AnyCross, AnyMut, rei);
    let e = algo.evolve(pop, gens, hof, Some(seed), nothing, &42);
    check(e.seed == seed, "the evolution reports its seed");
    check(e.generations.len() == gens + 1, "one generation per step after the initial one");
    let mut best = f64::NEG_INFINITY;
    for (n, g) in e.generations.iter().enumerate() {
        check(g.hall_of_fame.len() == hof.min(pop), "every generation has the whole population");
        let mut prev = f64::INFINITY;
        for i in &g.hall_of_fame {
            check(i.fitness == i.chromosome.x, "fitness is the evaluation of just that chromosome");
            check(i.fitness <= prev, "a generation is ordered best first");
            check(i.chromosome.id == 42, "chromosomes are made in the given context");
            prev = i.fitness;
        }
        if g.hall_of_fame.len() == 0 { continue; }
        if n > 0 && d(0) % 2 == 0 && d(0) == 0 || n > 0 && d(0) == 1 || n > 0 && d(0) == 3 { check(g.hall_of_fame[0].fitness >= best, "elitism never loses the best individual"); }
        if g.hall_of_fame[0].fitness > best { best = g.hall_of_fame[0].fitness; cover("improved"); } else { cover("kept"); }
    }
}

// ---- selection and reinsertion -----------------------------------------------------------------
fn population(n: usize, id: u64) -> Vec<Individual<Ch>> {
    let mut v: Vec<Individual<Ch>> = vec![]; let mut prev = 1e7;
    for i in 0..n { let x = f64_in(-1e6, 1e6); assume(x <= prev); prev = x; v.push(Individual { chromosome: Ch { x, id: id + i as u64 }, fitness: x }); }
    v
}
fn rng() -> StdRng { StdRng::seed_from_u64(1) }
fn ids(v: &[Individual<Ch>]) -> Vec<u64> { v.iter().map(|i| i.chromosome.id).collect() }
const RATES: [f32; 5] = [0.5, 0.75, 1.0, 0.3, 0.1];
/// cfg: [parents][rate][what]; what: 0 elite, 1 elite shuffled, 2 random, 3-9 tournament with a size of (what - 2) contenders
#[no_mangle] pub extern "C" fn h_g05s(cfg: u64) {
    let (n, rate, what) = ((cfg / 100) as usize, RATES[(cfg / 10 % 10) as usize], cfg % 10);
    let p = population(n, 0);
    let count = (n as f32 * rate) as usize;
    let mut o = vec![];
    match what {
        0 | 1 => EliteSelection::new(what == 1).select(&mut rng(), &p, &mut o, rate, &0),
        2 => GenerateRandomSelection {}.select(&mut rng(), &p, &mut o, rate, &1000),
        _ => TournamentSelection::new((what - 2) as f32 / n as f32 + 0.01, true).select(&mut rng(), &p, &mut o, rate, &0),
    }
    check(o.len() == count, "selection returns as many as asked for");
    for i in 0..count { check(o[i].chromosome.x == o[i].fitness || what == 2, "selection does not alter individuals"); }
    match what {
        0 => for i in 0..count { check(o[i].chromosome.id == i as u64, "elite selection takes the fittest") },
        1 => { let v = ids(&o); for i in 0..count as u64 { let mut c = 0; for x in &v { if *x == i { c += 1; } } check(c == 1, "elite selection takes the fittest once each"); } }
        2 => for i in 0..count { check(o[i].chromosome.id == 1000, "random selection generates in the context") },
        k => for i in 0..count {
            // among k contenders drawn from distinct members, the fittest is at best the k-th worst
            let id = o[i].chromosome.id;
            check(id < n as u64, "tournament winners are members");
            check(o[i].fitness >= p[n - (k as usize - 2)].fitness, "a tournament is won by the fittest contender");
            if id == 0 { cover("best wins"); } if id == n as u64 - (k - 2) { cover("worst possible wins"); }
        },
    }
}
/// the default tournament on a population of cfg
#[no_mangle] pub extern "C" fn h_g05d(cfg: u64) {
    let n = cfg as usize; let p = population(n, 0); let mut o = vec![];
    TournamentSelection::default().select(&mut rng(), &p, &mut o, 1.0, &0);
    check(o.len() == n, "selection returns as many as asked for");
    for i in &o { check(i.chromosome.id < n as u64, "tournament winners are members"); }
}
/// cfg: [population][offspring][what]; what: 0 pure, 1 fitness, 2.. elite with a generation rate of (what - 2) / 4
#[no_mangle] pub extern "C" fn h_g05r(cfg: u64) {
    let (n, m, what) = ((cfg / 100) as usize, (cfg / 10 % 10) as usize, cfg % 10);
    let p = population(n, 0);
    let o0 = population(m, 100);
    let mut o = o0.clone();
    let gr = if what < 2 { 0.0 } else { (what - 2) as f32 / 4.0 };
    match what {
        0 => PureReinsertion {}.reinsert(&mut rng(), &p, &mut o, n, &0),
        1 => FitnessReinsertion::new(m as f32 / n as f32).reinsert(&mut rng(), &p, &mut o, n, &0),
        _ => EliteReinsertion::new(m as f32 / n as f32, gr).reinsert(&mut rng(), &p, &mut o, n, &1000),
    }
    check(o.len() == n, "reinsertion restores the population size");
    let count = |id: u64| { let mut c = 0; for i in &o { if i.chromosome.id == id { c += 1; } } c };
    if what < 2 { for i in 0..n { check(o[i].chromosome.id == 100 + i as u64, "reinsertion keeps the fittest offspring"); } return; }
    let fresh = ((n - m) as f32 * gr) as usize;
    for i in 0..m { check(count(100 + i as u64) == 1, "elite reinsertion keeps every offspring"); }
    for i in 0..n { check(count(i as u64) == if i < n - m - fresh { 1 } else { 0 }, "elite reinsertion keeps the fittest parents"); }
    check(count(1000) == fresh, "elite reinsertion generates the rest");
    for i in 1..n { check(o[i].fitness <= o[i - 1].fitness, "reinsertion leaves the fittest first"); }
    for i in 0..n { let id = o[i].chromosome.id; if id < 1000 { check(o[i].fitness == if id >= 100 { o0[id as usize - 100].fitness } else { p[id as usize].fitness }, "reinsertion keeps fitnesses"); } }
}

// ---- uniform crossover and mutation --------------------------------------------------------------
#[derive(Clone)]
struct Rec { g: [u64; 4], calls: [u32; 4], order: u32 }
impl Chromosome for Rec {
    type Context = u64;
    fn len() -> usize { 4 }
    fn generate(_: &mut StdRng, _: &u64) -> Self { panic!() }
    fn cross(&mut self, o: &mut Self, i: usize) { check(i < 4, "crossover stays within the chromosome"); self.calls[i] += 1; std::mem::swap(&mut self.g[i], &mut o.g[i]) }
    fn mutate(&mut self, _: &mut StdRng, i: usize, ctx: &u64) { check(i < 4, "mutation stays within the chromosome"); self.calls[i] += 1; self.g[i] = *ctx; }
}
/// cfg: [probability in quarters][what]; what: 0 crossover, 1 mutation
#[no_mangle] pub extern "C" fn h_g03u(cfg: u64) {
    let prob = (cfg / 10) as f32 / 4.0;
    let rec = || Rec { g: [u64_in(0, 1 << 60), u64_in(0, 1 << 60), u64_in(0, 1 << 60), u64_in(0, 1 << 60)], calls: [0; 4], order: 0 };
    let (a, b) = (rec(), rec());
    let (mut x, mut y) = (a.clone(), b.clone());
    if cfg % 10 == 0 { UniformCrossover::new(prob).cross(&mut rng(), &mut x, &mut y); } else { UniformMutation::new(prob).mutate(&mut rng(), &mut x, &(1 << 61)); }
    for i in 0..4 {
        if x.calls[i] == 0 { cover("left"); } else { cover("hit"); }
        check(x.calls[i] + y.calls[i] <= 1, "each position is crossed or mutated at most once");
        check(prob > 0.0 || x.calls[i] == 0, "a probability of zero changes nothing");
        check(prob < 1.0 || x.calls[i] == 1, "a probability of one changes everything");
        if cfg % 10 == 0 { check((x.g[i] == a.g[i]) & (y.g[i] == b.g[i]) | (x.g[i] == b.g[i]) & (y.g[i] == a.g[i]), "offspring genes are the parents' genes"); }
        else { check(y.g[i] == b.g[i] && x.g[i] == if x.calls[i] == 1 { 1 << 61 } else { a.g[i] }, "mutation touches the mutated positions only"); }
    }
}

// ---- trading parameters ---------------------------------------------------------------------------
/// a gene: where it is (component, variant, field) and its value
#[derive(Clone)]
pub struct Gene { path: u64, v: Vec<u64> }
fn ma_bits(m: &MAParams, v: &mut Vec<u64>) {
    match m {
        MAParams::Alma(p) => v.extend([0, p.period as u64, p.offset.to_bits(), p.sigma.map_or(0, |s| s as u64 + 1)]),
        MAParams::Dema(p) => v.extend([1, p.period as u64]),
        MAParams::Ema(p) => v.extend([2, p.period as u64, p.smoothing.map_or(0, |s| s.to_bits())]),
        MAParams::Ema2(p) => v.extend([3, p.period as u64]),
        MAParams::Kama(p) => v.extend([4, p.period as u64]),
        MAParams::Sma(p) => v.extend([5, p.period as u64]),
        MAParams::Smma(p) => v.extend([6, p.period as u64]),
    }
}
fn easing_bits(e: Easing) -> u64 { unsafe { std::mem::transmute::<Easing, u8>(e) as u64 } }
fn mid_bits(e: MidTrendPolicy) -> u64 { unsafe { std::mem::transmute::<MidTrendPolicy, u8>(e) as u64 } }
struct Genes(Vec<Gene>);
impl Genes {
    fn g(&mut self, path: u64, v: Vec<u64>) { self.0.push(Gene { path, v }); }
    fn signal(&mut self, at: u64, s: &SignalParams) {
        match s { SignalParams::DoubleMA(p) => self.double_ma(at + 1000, p), SignalParams::DoubleMA2(p) => self.double_ma2(at + 2000, p), SignalParams::DoubleMAStoch(p) => { self.double_ma(at + 3000, &p.double_ma); self.stoch(at + 3000, &p.stoch) }
            SignalParams::FourWeekRule(p) => self.fwr(at + 4000, p), SignalParams::Macd(p) => self.macd(at + 5000, p), SignalParams::SingleMA(p) => self.single_ma(at + 6000, p), SignalParams::TripleMA(p) => self.triple_ma(at + 7000, p) }
    }
    fn double_ma(&mut self, at: u64, p: &DoubleMAParams) { let mut v = vec![]; ma_bits(&p.mas.0, &mut v); ma_bits(&p.mas.1, &mut v); self.g(at, v) }
    fn double_ma2(&mut self, at: u64, p: &DoubleMA2Params) { let mut v = vec![]; ma_bits(&p.mas.0, &mut v); ma_bits(&p.mas.1, &mut v); self.g(at, v); self.g(at + 1, vec![p.neg_threshold.to_bits()]); self.g(at + 2, vec![p.pos_threshold.to_bits()]) }
    fn triple_ma(&mut self, at: u64, p: &TripleMAParams) { let mut v = vec![]; ma_bits(&p.mas.0, &mut v); ma_bits(&p.mas.1, &mut v); ma_bits(&p.mas.2, &mut v); self.g(at, v) }
    fn single_ma(&mut self, at: u64, p: &SingleMAParams) { let mut v = vec![]; ma_bits(&p.ma, &mut v); self.g(at, v) }
    fn fwr(&mut self, at: u64, p: &FourWeekRuleParams) { let mut v = vec![]; ma_bits(&p.ma, &mut v); self.g(at, v); self.g(at + 1, vec![p.period as u64]) }
    fn macd(&mut self, at: u64, p: &MacdParams) { self.g(at, vec![p.periods.0 as u64, p.periods.1 as u64]); self.g(at + 1, vec![p.signal_period as u64]) }
    fn stoch(&mut self, at: u64, p: &StochParams) { self.g(at + 20, vec![p.k_period as u64]); self.g(at + 21, vec![p.k_sma_period as u64]); self.g(at + 22, vec![p.d_sma_period as u64]); self.g(at + 23, vec![p.up_threshold.to_bits()]); self.g(at + 24, vec![p.down_threshold.to_bits()]) }
    fn rsi(&mut self, at: u64, p: &RsiParams) { self.g(at + 30, vec![p.period as u64]); self.g(at + 31, vec![p.up_threshold.to_bits()]); self.g(at + 32, vec![p.down_threshold.to_bits()]) }
    fn strategy(&mut self, s: &StrategyParams) {
        match s {
            StrategyParams::DoubleMA(p) => self.double_ma(10_000, p), StrategyParams::DoubleMA2(p) => self.double_ma2(20_000, p),
            StrategyParams::DoubleMAStoch(p) => { self.double_ma(30_000, &p.double_ma); self.stoch(30_000, &p.stoch) }
            StrategyParams::FourWeekRule(p) => self.fwr(40_000, p), StrategyParams::Macd(p) => self.macd(50_000, p), StrategyParams::SingleMA(p) => self.single_ma(60_000, p), StrategyParams::TripleMA(p) => self.triple_ma(70_000, p),
            StrategyParams::Sig(p) => { self.signal(80_000, &p.sig); self.g(80_100, vec![p.persistence as u64]); self.g(80_101, vec![mid_bits(p.mid_trend_policy)]); self.g(80_102, vec![p.buffer_interval.map_or(0, |i| i.0 + 1)]) }
            StrategyParams::SigOsc(p) => { self.signal(90_000, &p.sig); match &p.osc { OscillatorParams::Rsi(r) => self.rsi(90_200, r), OscillatorParams::Stoch(s) => self.stoch(90_300, s) }
                self.g(90_100, vec![p.persistence as u64]); self.g(90_101, vec![mid_bits(p.mid_trend_policy)]); self.g(90_103, vec![(p.osc_filter == de("\"Prevent\"")) as u64]) }
        }
    }
    fn stop_loss(&mut self, s: &StopLossParams) {
        match s {
            StopLossParams::Noop(_) => {}
            StopLossParams::Basic(p) => { self.g(200_100, vec![p.up_threshold.to_bits()]); self.g(200_101, vec![p.down_threshold.to_bits()]) }
            StopLossParams::Trailing(p) => { self.g(200_200, vec![p.up_threshold.to_bits()]); self.g(200_201, vec![p.down_threshold.to_bits()]) }
            StopLossParams::BasicPlusTrailing(p) => { self.g(200_300, vec![p.basic.up_threshold.to_bits()]); self.g(200_301, vec![p.basic.down_threshold.to_bits()]); self.g(200_302, vec![p.trailing.up_threshold.to_bits()]); self.g(200_303, vec![p.trailing.down_threshold.to_bits()]) }
            StopLossParams::Legacy(p) => { self.g(200_400, vec![p.threshold.to_bits()]); self.g(200_401, vec![p.trail as u64]) }
        }
    }
    fn take_profit(&mut self, s: &TakeProfitParams) {
        match s {
            TakeProfitParams::Noop(_) => {}
            TakeProfitParams::Basic(p) => { self.g(300_100, vec![p.up_threshold.to_bits()]); self.g(300_101, vec![p.down_threshold.to_bits()]) }
            TakeProfitParams::Legacy(p) => self.g(300_200, vec![p.threshold.to_bits()]),
            TakeProfitParams::Trending(p) => { self.g(300_300, vec![p.up_thresholds.0.to_bits(), p.up_thresholds.1.to_bits()]); self.g(300_301, vec![p.down_thresholds.0.to_bits(), p.down_thresholds.1.to_bits()]); self.g(300_302, vec![p.period as u64]); self.g(300_303, vec![p.lock_threshold as u64]); self.g(300_304, vec![easing_bits(p.easing)]) }
        }
    }
}
pub fn genes(p: &TradingParams) -> Vec<Gene> {
    let mut g = Genes(vec![]);
    g.strategy(&p.strategy); g.g(100_000, vec![p.trader.interval.0]); g.stop_loss(&p.stop_loss); g.take_profit(&p.take_profit);
    g.0
}
fn eq(a: &Gene, b: &Gene) -> bool { let mut r = (a.path == b.path) & (a.v.len() == b.v.len()); for i in 0..a.v.len().min(b.v.len()) { r &= a.v[i] == b.v[i]; } r }
fn alike(a: &[Gene], b: &[Gene]) -> bool { let mut r = a.len() == b.len(); for i in 0..a.len().min(b.len()) { r &= eq(&a[i], &b[i]); } r }
/// 0 strategy, 1 interval, 2 stop loss, 3 take profit, and the choices nested in a filtered strategy: 4 signal, 5 oscillator
fn component(path: u64) -> u64 { path / 100_000 }

/// values: 0 any, 1 outside what is ever generated
fn per(m: u64) -> u32 { if m == 0 { u64_in(1, 100_000) as u32 } else { 70_000 } }
fn thr(m: u64) -> f64 { if m == 0 { f64_in(-1e6, 1e6) } else { 77_000.0 } }
fn ma(k: u64, m: u64) -> MAParams {
    let period = per(m);
    match k { 0 => MAParams::Alma(AlmaParams { period, offset: 0.85, sigma: None }), 1 => MAParams::Ema(EmaParams { period, smoothing: None }), 2 => MAParams::Kama(KamaParams { period }), _ => MAParams::Sma(SmaParams { period }) }
}
fn p_stoch(m: u64) -> StochParams { StochParams { k_period: per(m), k_sma_period: per(m), d_sma_period: per(m), up_threshold: thr(m), down_threshold: thr(m) } }
fn p_double(m: u64) -> DoubleMAParams { DoubleMAParams { mas: (ma(0, m), ma(1, m)) } }
fn p_double2(m: u64) -> DoubleMA2Params { DoubleMA2Params { neg_threshold: thr(m), pos_threshold: thr(m), mas: (ma(2, m), ma(3, m)) } }
fn p_fwr(m: u64) -> FourWeekRuleParams { FourWeekRuleParams { period: per(m), ma: ma(3, m) } }
fn p_macd(m: u64) -> MacdParams { MacdParams { periods: (per(m), per(m)), signal_period: per(m) } }
fn p_triple(m: u64) -> TripleMAParams { TripleMAParams { mas: (ma(0, m), ma(1, m), ma(2, m)) } }
fn p_signal(k: u64, m: u64) -> SignalParams {
    match k { 0 => SignalParams::DoubleMA(p_double(m)), 1 => SignalParams::DoubleMA2(p_double2(m)), 2 => SignalParams::DoubleMAStoch(DoubleMAStochParams { double_ma: p_double(m), stoch: p_stoch(m) }), 3 => SignalParams::FourWeekRule(p_fwr(m)),
        4 => SignalParams::Macd(p_macd(m)), 5 => SignalParams::SingleMA(SingleMAParams { ma: ma(1, m) }), _ => SignalParams::TripleMA(p_triple(m)) }
}
fn p_osc(k: u64, m: u64) -> OscillatorParams { if k == 0 { OscillatorParams::Rsi(RsiParams { period: per(m), up_threshold: thr(m), down_threshold: thr(m) }) } else { OscillatorParams::Stoch(p_stoch(m)) } }
fn mid(m: u64) -> MidTrendPolicy { let k = if m == 0 { u64_in(0, 2) } else { 1 }; unsafe { std::mem::transmute::<u8, MidTrendPolicy>(k as u8) } }
fn p_strategy(k: u64, sub: u64, m: u64) -> StrategyParams {
    match k { 0 => StrategyParams::DoubleMA(p_double(m)), 1 => StrategyParams::DoubleMA2(p_double2(m)), 2 => StrategyParams::DoubleMAStoch(DoubleMAStochParams { double_ma: p_double(m), stoch: p_stoch(m) }), 3 => StrategyParams::FourWeekRule(p_fwr(m)),
        4 => StrategyParams::Macd(p_macd(m)), 5 => StrategyParams::SingleMA(SingleMAParams { ma: ma(1, m) }), 6 => StrategyParams::TripleMA(p_triple(m)),
        7 => StrategyParams::Sig(SigParams { sig: p_signal(sub, m), persistence: per(m), mid_trend_policy: mid(m), buffer_interval: if m == 0 { Some(Interval(u64_in(1, 1 << 40))) } else { None } }),
        _ => StrategyParams::SigOsc(SigOscParams { sig: p_signal(sub, m), osc: p_osc(sub % 2, m), osc_filter: de(if m == 0 && sub % 3 == 0 { "\"Enforce\"" } else { "\"Prevent\"" }), persistence: per(m), mid_trend_policy: mid(m) }) }
}
fn p_stop(k: u64, m: u64) -> StopLossParams {
    let b = || sl::BasicParams { up_threshold: thr(m), down_threshold: thr(m) };
    let t = || sl::TrailingParams { up_threshold: thr(m), down_threshold: thr(m) };
    match k { 0 => StopLossParams::Noop(sl::NoopParams {}), 1 => StopLossParams::Basic(b()), 2 => StopLossParams::Trailing(t()), 3 => StopLossParams::BasicPlusTrailing(sl::BasicPlusTrailingParams { basic: b(), trailing: t() }),
        _ => StopLossParams::Legacy(sl::LegacyParams { threshold: thr(m), trail: m == 0 && any_bool() }) }
}
fn p_take(k: u64, m: u64) -> TakeProfitParams {
    match k { 0 => TakeProfitParams::Noop(tp::NoopParams {}), 1 => TakeProfitParams::Basic(tp::BasicParams { up_threshold: thr(m), down_threshold: thr(m) }), 2 => TakeProfitParams::Legacy(tp::LegacyParams { threshold: thr(m) }),
        _ => TakeProfitParams::Trending(tp::TrendingParams { up_thresholds: (thr(m), thr(m)), down_thresholds: (thr(m), thr(m)), period: per(m), lock_threshold: m == 0 && any_bool(), easing: unsafe { std::mem::transmute::<u8, Easing>(if m == 0 { u64_in(0, 30) as u8 } else { 3 }) } }) }
}
/// digits from the right: take profit, stop loss, nested signal, strategy
fn params(d: u64, m: u64) -> TradingParams {
    TradingParams { strategy: p_strategy(d / 1000 % 10, d / 100 % 10, m), trader: TraderParams { interval: Interval(if m == 0 { u64_in(1, 1 << 40) } else { 77 }) }, stop_loss: p_stop(d / 10 % 10, m), take_profit: p_take(d % 10, m) }
}
fn nested(path: u64) -> bool { (path / 10_000 == 8 || path / 10_000 == 9) && (path % 1000 < 100 || path % 1000 >= 200) }
/// genes that may move together: 0 the strategy's own, 1 interval, 2 stop loss, 3 take profit, 4 nested signal, 5 nested oscillator
fn unit(path: u64) -> u64 { if path >= 100_000 { path / 100_000 } else if !nested(path) { 0 } else if path % 1000 < 100 { 4 } else { 5 } }
fn of(v: &[Gene], u: u64) -> Vec<Gene> { v.iter().filter(|g| unit(g.path) == u).cloned().collect() }
fn find(v: &[Gene], path: u64) -> Option<&Gene> { v.iter().find(|g| g.path == path) }
/// cfg: two sets of trading parameters [strategy, nested signal, stop loss, take profit] x 2
#[no_mangle] pub extern "C" fn h_g03x(cfg: u64) {
    let (a, b) = (params(cfg / 10_000, 0), params(cfg % 10_000, 0));
    let (ga, gb) = (genes(&a), genes(&b));
    // the parents differ in every gene both have (the oscillator filter, known here, may be the same)
    for x in &ga { if let Some(y) = find(&gb, x.path) { if x.path != 90_103 { assume(!eq(x, y)); } } }
    let mut moved = vec![0u64; ga.len()];
    for i in 0..TradingParams::len() {
        let (mut x, mut y) = (a, b);
        x.cross(&mut y, i);
        let (gx, gy) = (genes(&x), genes(&y));
        let mut comps = [true; 4];
        for u in 0..6 {
            let (fa, fb, fx, fy) = (of(&ga, u), of(&gb, u), of(&gx, u), of(&gy, u));
            let (kept, swapped) = (alike(&fx, &fa) & alike(&fy, &fb), alike(&fx, &fb) & alike(&fy, &fa));
            let mut single = fa.len() == fb.len() && fa.len() == fx.len() && fa.len() == fy.len();
            if single { for j in 0..fa.len() { single &= eq(&fx[j], &fa[j]) & eq(&fy[j], &fb[j]) | eq(&fx[j], &fb[j]) & eq(&fy[j], &fa[j]); } }
            check(kept | swapped | single, "crossing a position exchanges genes of the two parents");
            comps[if u < 4 { u as usize } else { 0 }] &= kept;
        }
        check(comps.iter().fold(0, |n, k| n + !*k as u64) <= 1, "crossing a position changes one component only");
        for (n, g) in ga.iter().enumerate() { if find(&gb, g.path).is_some() { match find(&gx, g.path) { Some(q) => moved[n] += !eq(q, g) as u64, None => moved[n] += 1 } } }
        x.cross(&mut y, i);
        check(alike(&genes(&x), &ga) & alike(&genes(&y), &gb), "crossing a position twice restores the parents");
    }
    for (n, g) in ga.iter().enumerate() {
        if find(&gb, g.path).is_none() || g.path == 90_103 { cover("not shared"); continue; }
        cover("shared");
        check(moved[n] == if unit(g.path) == 1 { 1 } else if nested(g.path) { 3 } else { 2 }, "every gene has one position of its own besides those of the choices it is part of");
    }
}

// ---- ranges of generated parameters --------------------------------------------------------------
fn ok_ma(m: &MAParams, lo: u32, hi: u32) -> bool {
    let k = m.period(); let r = (lo <= k) & (k < hi);
    match m { MAParams::Alma(p) => r & (0.0 < p.offset) & (p.offset < 1.0) & (p.sigma != Some(0)), _ => r }
}
fn rng_f(x: f64, lo: f64, hi: f64) -> bool { (lo <= x) & (x <= hi) }
fn rng_u(x: u32, lo: u32, hi: u32) -> bool { (lo <= x) & (x < hi) }
fn ok_double(p: &DoubleMAParams) -> bool { ok_ma(&p.mas.0, 1, 300) & ok_ma(&p.mas.1, 2, 301) & (p.mas.0.period() < p.mas.1.period()) }
fn ok_double2(p: &DoubleMA2Params) -> bool { ok_ma(&p.mas.0, 1, 200) & ok_ma(&p.mas.1, 2, 201) & (p.mas.0.period() < p.mas.1.period()) & rng_f(p.neg_threshold, -1.0, -0.1) & rng_f(p.pos_threshold, 0.1, 1.0) }
fn ok_stoch(p: &StochParams) -> bool { rng_u(p.k_period, 1, 201) & rng_u(p.k_sma_period, 1, 201) & rng_u(p.d_sma_period, 1, 201) & rng_f(p.up_threshold, 50.0, 100.0) & rng_f(p.down_threshold, 0.0, 50.0) }
fn ok_rsi(p: &RsiParams) -> bool { rng_u(p.period, 1, 101) & rng_f(p.up_threshold, 50.0, 100.0) & rng_f(p.down_threshold, 0.0, 50.0) }
fn ok_fwr(p: &FourWeekRuleParams) -> bool { rng_u(p.period, 2, 300) & ok_ma(&p.ma, 2, 300) }
fn ok_macd(p: &MacdParams) -> bool { rng_u(p.periods.0, 1, 100) & rng_u(p.periods.1, 2, 101) & (p.periods.0 < p.periods.1) & rng_u(p.signal_period, 1, 100) }
fn ok_triple(p: &TripleMAParams) -> bool { ok_ma(&p.mas.0, 1, 299) & ok_ma(&p.mas.1, 2, 300) & ok_ma(&p.mas.2, 3, 301) & (p.mas.0.period() < p.mas.1.period()) & (p.mas.1.period() < p.mas.2.period()) }
fn ok_signal(s: &SignalParams) -> bool {
    match s { SignalParams::DoubleMA(p) => ok_double(p), SignalParams::DoubleMA2(p) => ok_double2(p), SignalParams::DoubleMAStoch(p) => ok_double(&p.double_ma) & ok_stoch(&p.stoch), SignalParams::FourWeekRule(p) => ok_fwr(p),
        SignalParams::Macd(p) => ok_macd(p), SignalParams::SingleMA(p) => ok_ma(&p.ma, 1, 300), SignalParams::TripleMA(p) => ok_triple(p) }
}
fn ok_osc(o: &OscillatorParams) -> bool { match o { OscillatorParams::Rsi(p) => ok_rsi(p), OscillatorParams::Stoch(p) => ok_stoch(p) } }
fn ok_strategy(s: &StrategyParams) -> bool {
    match s { StrategyParams::DoubleMA(p) => ok_double(p), StrategyParams::DoubleMA2(p) => ok_double2(p), StrategyParams::DoubleMAStoch(p) => ok_double(&p.double_ma) & ok_stoch(&p.stoch), StrategyParams::FourWeekRule(p) => ok_fwr(p),
        StrategyParams::Macd(p) => ok_macd(p), StrategyParams::SingleMA(p) => ok_ma(&p.ma, 1, 300), StrategyParams::TripleMA(p) => ok_triple(p),
        StrategyParams::Sig(p) => ok_signal(&p.sig) & (p.persistence < 10) & (mid_bits(p.mid_trend_policy) < 3) & p.buffer_interval.is_none(),
        StrategyParams::SigOsc(p) => ok_signal(&p.sig) & ok_osc(&p.osc) & (p.persistence < 10) & (mid_bits(p.mid_trend_policy) < 3) }
}
fn ok_stop(s: &StopLossParams) -> bool {
    let t = |x: f64| rng_f(x, 0.001, 1.0);
    match s { StopLossParams::Noop(_) => true, StopLossParams::Basic(p) => t(p.up_threshold) & t(p.down_threshold), StopLossParams::Trailing(p) => t(p.up_threshold) & t(p.down_threshold),
        StopLossParams::BasicPlusTrailing(p) => t(p.basic.up_threshold) & t(p.basic.down_threshold) & t(p.trailing.up_threshold) & t(p.trailing.down_threshold),
        StopLossParams::Legacy(p) => (p.threshold == 0.0) | rng_f(p.threshold, 0.01, 1.0) }
}
fn ok_take(s: &TakeProfitParams) -> bool {
    let t = |x: f64| rng_f(x, 0.001, 10.0);
    match s { TakeProfitParams::Noop(_) => true, TakeProfitParams::Basic(p) => t(p.up_threshold) & t(p.down_threshold), TakeProfitParams::Legacy(p) => (p.threshold == 0.0) | rng_f(p.threshold, 0.01, 10.0),
        TakeProfitParams::Trending(p) => t(p.up_thresholds.0) & t(p.up_thresholds.1) & (p.up_thresholds.0 < p.up_thresholds.1) & t(p.down_thresholds.0) & t(p.down_thresholds.1) & (p.down_thresholds.0 < p.down_thresholds.1) & rng_u(p.period, 1, 200) & (easing_bits(p.easing) < 31) }
}
fn ok_params(p: &TradingParams, intervals: &[Interval]) -> bool {
    let mut any = false; for i in intervals { any |= p.trader.interval.0 == i.0; }
    ok_strategy(&p.strategy) & any & ok_stop(&p.stop_loss) & ok_take(&p.take_profit)
}
fn s_ctx(k: u64, sub: u64) -> StrategyParamsContext {
    use StrategyParamsContext as C;
    let sig = || match sub { 0 => SignalParamsContext::DoubleMA(Default::default()), 1 => SignalParamsContext::DoubleMA2(Default::default()), 2 => SignalParamsContext::DoubleMAStoch(Default::default()), 3 => SignalParamsContext::FourWeekRule(Default::default()),
        4 => SignalParamsContext::Macd(Default::default()), 5 => SignalParamsContext::SingleMA(Default::default()), 6 => SignalParamsContext::TripleMA(Default::default()), _ => SignalParamsContext::None };
    if k == 5 && sub == 8 { return C::SingleMA(SingleMAParamsContext { ma: Some(MAParams::Sma(SmaParams { period: 3 })) }); }
    match k { 0 => C::DoubleMA(Default::default()), 1 => C::DoubleMA2(Default::default()), 2 => C::DoubleMAStoch(Default::default()), 3 => C::FourWeekRule(Default::default()), 4 => C::Macd(Default::default()), 5 => C::SingleMA(Default::default()), 6 => C::TripleMA(Default::default()),
        7 => C::Sig(SigParamsContext { sig: sig(), ..Default::default() }),
        8 => C::SigOsc(SigOscParamsContext { sig: sig(), osc: if sub % 2 == 0 { OscillatorParamsContext::Rsi(Default::default()) } else { OscillatorParamsContext::Stoch(Default::default()) }, ..Default::default() }), _ => C::None }
}
fn sl_ctx(k: u64) -> StopLossParamsContext { use StopLossParamsContext as C; match k { 8 => C::Legacy(sl::LegacyParamsContext { threshold: Some(0.1), trail: None }), 0 => C::Noop(Default::default()), 1 => C::Basic(Default::default()), 2 => C::Trailing(Default::default()), 3 => C::BasicPlusTrailing(Default::default()), 4 => C::Legacy(Default::default()), _ => C::None } }
fn tp_ctx(k: u64) -> TakeProfitParamsContext { use TakeProfitParamsContext as C; match k { 0 => C::Noop(Default::default()), 1 => C::Basic(Default::default()), 2 => C::Legacy(Default::default()), 3 => C::Trending(Default::default()), 8 => C::Trending(tp::TrendingParamsContext { up_thresholds: Some((0.1, 0.2)), down_thresholds: Some((0.1, 0.2)), period: Some(4), lock_threshold: None, easing: None }), _ => C::None } }
/// context that leaves all genes of the given variants free; digits as for params, 9 leaves the variant free too, 8 leaves the discrete genes of a strategy, stop loss or take profit free
fn free_ctx(d: u64) -> TradingParamsContext {
    TradingParamsContext { strategy: s_ctx(d / 1000 % 10, d / 100 % 10), trader: TraderParamsContext { intervals: vec![Interval(60_000), Interval(3_600_000), Interval(86_400_000)] }, stop_loss: sl_ctx(d / 10 % 10), take_profit: tp_ctx(d % 10) }
}
/// whether the parameters are of the variants of cfg (9 for any)
fn variant(p: &TradingParams, d: u64) -> bool {
    let s = match p.strategy { StrategyParams::DoubleMA(_) => 0, StrategyParams::DoubleMA2(_) => 1, StrategyParams::DoubleMAStoch(_) => 2, StrategyParams::FourWeekRule(_) => 3, StrategyParams::Macd(_) => 4, StrategyParams::SingleMA(_) => 5, StrategyParams::TripleMA(_) => 6, StrategyParams::Sig(_) => 7, StrategyParams::SigOsc(_) => 8 };
    let l = match p.stop_loss { StopLossParams::Noop(_) => 0, StopLossParams::Basic(_) => 1, StopLossParams::Trailing(_) => 2, StopLossParams::BasicPlusTrailing(_) => 3, StopLossParams::Legacy(_) => 4 };
    let t = match p.take_profit { TakeProfitParams::Noop(_) => 0, TakeProfitParams::Basic(_) => 1, TakeProfitParams::Legacy(_) => 2, TakeProfitParams::Trending(_) => 3 };
    (d / 1000 % 10 == 9 || d / 1000 % 10 == s) && (d / 10 % 10 == 9 || d / 10 % 10 == l) && (d % 10 == 9 || d % 10 == t)
}
/// digits as for params (9: any variant)
#[no_mangle] pub extern "C" fn h_g04(cfg: u64) {
    max_rng(40);
    let ctx = free_ctx(cfg);
    let p = TradingParams::generate(&mut rng(), &ctx);
    check(variant(&p, cfg), "a variant the context chooses is generated");
    check(ok_strategy(&p.strategy), "generated strategy parameters are in their ranges");
    check(ok_params(&p, &ctx.trader.intervals), "generated parameters are in their ranges");
}
/// any parameters in the generated ranges can be constructed and run: [candles] and digits as for params; periods up to 3
#[no_mangle] pub extern "C" fn h_g04c(cfg: u64) {
    let p = params(cfg % 10_000, 0);
    let mut small = true;
    for g in genes(&p) { if g.path < 100_000 { for x in &g.v { small &= (*x <= 3) | (*x >= 1 << 40); } } }
    assume(small);
    if let TakeProfitParams::Trending(q) = &p.take_profit { assume(q.period <= 2); }
    assume(ok_strategy(&p.strategy) | (cfg / 1000 % 10 == 7)); assume(ok_stop(&p.stop_loss)); assume(ok_take(&p.take_profit));
    let mut s = p.strategy.construct(&StrategyMeta { interval: Interval(60_000) });
    let mut l = p.stop_loss.construct(); let mut t = p.take_profit.construct();
    for i in 0..cfg / 10_000 {
        let c = Candle { time: Timestamp(i * 60_000), open: 1.0, high: 2.0, low: 0.5, close: [1.0, 1.5, 0.75, 1.25, 1.75, 0.5][i as usize % 6], volume: 1.0 };
        s.update(&c); if i == 0 { l.clear(&c); t.clear(&c); } l.update(&c); t.update(&c);
        let _ = (s.advice(), l.upside_hit(), l.downside_hit(), t.upside_hit(), t.downside_hit());
        cover("ran");
    }
    check(true, "generated parameters run");
}
/// any period in the generated ranges can be constructed and run: 0-6 moving averages, 7 rsi, 8-10 stochastic, 11-12 macd
#[no_mangle] pub extern "C" fn h_g04p(cfg: u64) {
    let n = pick(u64_in(1, match cfg { 7 => 100, 8..=10 => 200, 11 | 12 => 99, _ => 300 })) as u32;
    let run = |f: &mut dyn FnMut(f64)| for i in 0..3 { f([1.0, 3.0, 2.0][i]) };
    let m = match cfg { 0 => MAParams::Alma(AlmaParams { period: n, offset: 0.85, sigma: None }), 1 => MAParams::Dema(DemaParams { period: n }), 2 => MAParams::Ema(EmaParams { period: n, smoothing: None }), 3 => MAParams::Ema2(Ema2Params { period: n }), 4 => MAParams::Kama(KamaParams { period: n }), 5 => MAParams::Sma(SmaParams { period: n }), _ => MAParams::Smma(SmmaParams { period: n }) };
    match cfg {
        7 => { let mut x = juno::indicators::Rsi::new(n); run(&mut |p| x.update(p)); }
        8..=10 => { let k = |i| if cfg == 8 + i as u64 { n } else { 2 }; let mut x = juno::indicators::Stoch::new(k(0), k(1), k(2)); run(&mut |p| x.update(p, p, p)); }
        11 | 12 => { let mut x = juno::indicators::Macd::new(if cfg == 11 { n } else { 1 }, n + 1, n); run(&mut |p| x.update(p)); }
        _ => { check(m.period() == n, "a moving average has its period"); let mut x = m.construct(); run(&mut |p| x.update(p)); check(x.maturity() >= 1, "a moving average matures"); }
    }
    check(true, "generated periods run");
}
/// a context that fixes every gene to those of p
fn fixed_ctx(p: &TradingParams) -> TradingParamsContext {
    let dm = |q: &DoubleMAParams| DoubleMAParamsContext { mas: Some(q.mas) };
    let dm2 = |q: &DoubleMA2Params| DoubleMA2ParamsContext { neg_threshold: Some(q.neg_threshold), pos_threshold: Some(q.pos_threshold), mas: Some(q.mas) };
    let st = |q: &StochParams| StochParamsContext { k_period: Some(q.k_period), k_sma_period: Some(q.k_sma_period), d_sma_period: Some(q.d_sma_period), up_threshold: Some(q.up_threshold), down_threshold: Some(q.down_threshold) };
    let dms = |q: &DoubleMAStochParams| DoubleMAStochParamsContext { double_ma: dm(&q.double_ma), stoch: st(&q.stoch) };
    let fw = |q: &FourWeekRuleParams| FourWeekRuleParamsContext { period: Some(q.period), ma: Some(q.ma) };
    let mc = |q: &MacdParams| MacdParamsContext { periods: Some(q.periods), signal_period: Some(q.signal_period) };
    let sm = |q: &SingleMAParams| SingleMAParamsContext { ma: Some(q.ma) };
    let tm = |q: &TripleMAParams| TripleMAParamsContext { mas: Some(q.mas) };
    let sig = |q: &SignalParams| match q { SignalParams::DoubleMA(q) => SignalParamsContext::DoubleMA(dm(q)), SignalParams::DoubleMA2(q) => SignalParamsContext::DoubleMA2(dm2(q)), SignalParams::DoubleMAStoch(q) => SignalParamsContext::DoubleMAStoch(dms(q)),
        SignalParams::FourWeekRule(q) => SignalParamsContext::FourWeekRule(fw(q)), SignalParams::Macd(q) => SignalParamsContext::Macd(mc(q)), SignalParams::SingleMA(q) => SignalParamsContext::SingleMA(sm(q)), SignalParams::TripleMA(q) => SignalParamsContext::TripleMA(tm(q)) };
    let osc = |q: &OscillatorParams| match q { OscillatorParams::Rsi(q) => OscillatorParamsContext::Rsi(RsiParamsContext { period: Some(q.period), up_threshold: Some(q.up_threshold), down_threshold: Some(q.down_threshold) }), OscillatorParams::Stoch(q) => OscillatorParamsContext::Stoch(st(q)) };
    use StrategyParamsContext as C;
    let b = |q: &sl::BasicParams| sl::BasicParamsContext { up_threshold: Some(q.up_threshold), down_threshold: Some(q.down_threshold) };
    let t = |q: &sl::TrailingParams| sl::TrailingParamsContext { up_threshold: Some(q.up_threshold), down_threshold: Some(q.down_threshold) };
    TradingParamsContext {
        strategy: match &p.strategy { StrategyParams::DoubleMA(q) => C::DoubleMA(dm(q)), StrategyParams::DoubleMA2(q) => C::DoubleMA2(dm2(q)), StrategyParams::DoubleMAStoch(q) => C::DoubleMAStoch(dms(q)), StrategyParams::FourWeekRule(q) => C::FourWeekRule(fw(q)),
            StrategyParams::Macd(q) => C::Macd(mc(q)), StrategyParams::SingleMA(q) => C::SingleMA(sm(q)), StrategyParams::TripleMA(q) => C::TripleMA(tm(q)),
            StrategyParams::Sig(q) => C::Sig(SigParamsContext { sig: sig(&q.sig), persistence: Some(q.persistence), mid_trend_policy: Some(q.mid_trend_policy), buffer_interval: Some(q.buffer_interval) }),
            StrategyParams::SigOsc(q) => C::SigOsc(SigOscParamsContext { sig: sig(&q.sig), osc: osc(&q.osc), osc_filter: Some(q.osc_filter), persistence: Some(q.persistence), mid_trend_policy: Some(q.mid_trend_policy) }) },
        trader: TraderParamsContext { intervals: vec![p.trader.interval] },
        stop_loss: match &p.stop_loss { StopLossParams::Noop(_) => StopLossParamsContext::Noop(Default::default()), StopLossParams::Basic(q) => StopLossParamsContext::Basic(b(q)), StopLossParams::Trailing(q) => StopLossParamsContext::Trailing(t(q)),
            StopLossParams::BasicPlusTrailing(q) => StopLossParamsContext::BasicPlusTrailing(sl::BasicPlusTrailingParamsContext { basic: b(&q.basic), trailing: t(&q.trailing) }), StopLossParams::Legacy(q) => StopLossParamsContext::Legacy(sl::LegacyParamsContext { threshold: Some(q.threshold), trail: Some(q.trail) }) },
        take_profit: match &p.take_profit { TakeProfitParams::Noop(_) => TakeProfitParamsContext::Noop(Default::default()), TakeProfitParams::Basic(q) => TakeProfitParamsContext::Basic(tp::BasicParamsContext { up_threshold: Some(q.up_threshold), down_threshold: Some(q.down_threshold) }),
            TakeProfitParams::Legacy(q) => TakeProfitParamsContext::Legacy(tp::LegacyParamsContext { threshold: Some(q.threshold) }),
            TakeProfitParams::Trending(q) => TakeProfitParamsContext::Trending(tp::TrendingParamsContext { up_thresholds: Some(q.up_thresholds), down_thresholds: Some(q.down_thresholds), period: Some(q.period), lock_threshold: Some(q.lock_threshold), easing: Some(q.easing) }) },
    }
}
/// a context fixing every gene: generation and mutation give just those
#[no_mangle] pub extern "C" fn h_g03f(cfg: u64) {
    let p = params(cfg, 0);
    let ctx = fixed_ctx(&p);
    let want = genes(&p);
    check(alike(&genes(&TradingParams::generate(&mut rng(), &ctx)), &want), "generation takes the genes the context fixes");
    let other = params(cfg, 1);
    let before = genes(&other);
    let mut all = other;
    for i in 0..TradingParams::len() {
        let mut x = p; x.mutate(&mut rng(), i, &ctx);
        check(alike(&genes(&x), &want), "mutation keeps the genes the context fixes");
        let mut y = other; y.mutate(&mut rng(), i, &ctx);
        let gy = genes(&y);
        check(gy.len() == want.len(), "mutation keeps the variant the context fixes");
        let mut comps = [true; 4];
        let mut changed = 0;
        for j in 0..want.len() {
            check(eq(&gy[j], &want[j]) | eq(&gy[j], &before[j]), "mutation gives genes the context fixes their value");
            let same = eq(&gy[j], &before[j]); let u = unit(want[j].path) as usize;
            comps[if u < 4 { u } else { 0 }] &= same; changed += !same as u64;
        }
        check(comps.iter().fold(0, |n, k| n + !*k as u64) <= 1, "mutating a position changes one component only");
        let _ = changed;
        all.mutate(&mut rng(), i, &ctx);
    }
    check(alike(&genes(&all), &want), "mutating every position reaches every gene");
}
/// mutation of free genes, one position at a time; digits as for params
#[no_mangle] pub extern "C" fn h_g03m(cfg: u64) {
    max_rng(30);
    let d = cfg;
    let p = params(d, 1);
    let ctx = free_ctx(d);
    let before = genes(&p);
    let n = TradingParams::len();
    let i = choice(n as u64) as usize;
    let mut x = p; x.mutate(&mut rng(), i, &ctx);
    check(variant(&x, d), "mutation keeps the variant the context fixes");
    let gx = genes(&x);
    let at = |v: &[Gene], c: usize| -> Vec<Gene> { v.iter().filter(|g| { let u = unit(g.path) as usize; (if u < 4 { u } else { 0 }) == c }).cloned().collect() };
    let mut comps = 0;
    for c in 0..4 {
        let (f, g) = (at(&before, c), at(&gx, c));
        let kept = alike(&f, &g);
        if !kept {
            comps += 1;
            // either the whole component is drawn anew, or one unit of it, or a single gene
            let ok = match c { 0 => ok_strategy(&x.strategy), 1 => ok_params(&x, &ctx.trader.intervals) | ctx.trader.intervals.iter().fold(false, |a, k| a | (k.0 == x.trader.interval.0)), 2 => ok_stop(&x.stop_loss), _ => ok_take(&x.take_profit) };
            let mut single = f.len() == g.len(); let mut diff = 0;
            if single { for j in 0..f.len() { single &= f[j].path == g[j].path; diff += !eq(&f[j], &g[j]) as u64; } }
            let nest = c == 0 && d / 1000 % 10 >= 7 && alike(&of(&before, 0), &of(&gx, 0)) && match &x.strategy { StrategyParams::Sig(q) => ok_signal(&q.sig), StrategyParams::SigOsc(q) => ok_signal(&q.sig) | ok_osc(&q.osc), _ => false };
            check(ok | nest | (single & (diff == 1)), "mutation draws one gene, or the genes of one choice, anew");
            cover("mutated");
        } else { cover("kept"); }
    }
    check(comps <= 1, "mutating a position changes one component only");
}

// ---- reproducibility --------------------------------------------------------------------------------
struct Any;
impl Evaluation for Any { type Chromosome = TradingParams; fn evaluate(&self, p: &mut [Individual<TradingParams>]) { for i in p { i.fitness = match i.chromosome.take_profit { TakeProfitParams::Trending(t) => t.up_thresholds.0, _ => 0.0 }; } } }
/// cfg: [generations][digits as for params]
#[no_mangle] pub extern "C" fn h_g02(cfg: u64) {
    max_rng(200);
    let algo = GeneticAlgorithm::new(Any, EliteSelection::default(), UniformCrossover::new(1.0), UniformMutation::new(1.0), EliteReinsertion::new(0.5, 0.0));
    let run = || { let e = algo.evolve(2, (cfg / 10_000) as usize, 2, Some(5), nothing, &free_ctx(cfg));
        let mut w = vec![e.seed]; for g in &e.generations { for i in &g.hall_of_fame { w.push(i.fitness.to_bits()); for q in genes(&i.chromosome) { w.push(q.path); w.extend(q.v); } } } w };
    let a = run(); let b = run();
    check(a.len() == b.len() && { let mut r = true; for i in 0..a.len() { r &= a[i] == b[i]; } r }, "the same seed gives the same evolution");
    across(&a, "the same seed gives the same evolution in another process");
}
