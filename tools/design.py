#!/usr/bin/env python3
"""Writes DESIGN.md from spec.py, props.py, known_findings.txt, seeded/ and tools/design_tail.md."""
import sys, json, glob, os; sys.path.insert(0,'/verif'); import spec, props
M = {
'T01': ('`trade()` on symbolic candles; the returned positions are compared with the candles', 'the statement itself: times, order, end-of-candle prices'),
'T02': ('every fill and accessor recomputed from the price, filters and fees; running cash re-derived', 'independent formulas in the harness (`rdown`, `rhalf`, `fit`)'),
'T03': ('sizes and borrowings recomputed from the cash at hand', 'independent `fit`, borrow and margin formulas'),
'T04': ('the whole position list compared with a reference loop that replays the strategy, stop loss and take profit rules', '`reference()` in harness/src/trade.rs; it reuses the real strategy and risk objects (decided by S*/R*), not the trading loop'),
'T05': ('two symbolic runs, one on a prefix of the candles of the other', 'the run on the prefix'),
'T06': ('entries compared with the reference loop', '`reference()`, with its own changed-advice rule'),
'T07': ('close fills of shorts against interest on whole started intervals', 'independent integer arithmetic'),
'R01': ('a rule cleared after any subset of the candles, then compared after every further candle', 'closed formulas over the whole price history'),
'R02': ('as R01, with the trend strength from the (I02) ADX for the trending rule', 'closed formulas over the whole price history'),
'I01': ('indicator fed a symbolic series and compared with the definition over the whole series after each update', 'textbook definitions written over the full list of prices, no incremental state'),
'I02': ('as I01 on symbolic candles', 'textbook definitions over the full list'),
'I03': ('mature()/maturity() observed after each of the first updates', 'the announced number'),
'I04': ('values compared with the range of the inputs after each update, flat series included because prices may be equal', 'range arithmetic'),
'S01': ('advice and maturity observed after every candle', 'the announced number'),
'S02': ('advice after every candle against the rule of the strategy evaluated on indicator values', 'rules rewritten in harness/src/strat.rs on top of the indicators (I01, I02)'),
'S03': ('composed strategy against a composition of its parts', 'reference compositions of persistence, mid-trend and oscillator filters'),
'U01': ('filters fed symbolic advice sequences', 'list-based definitions'),
'U02': ('candles with symbolic prices and enumerated gap patterns', 'grouping of the whole list by calendar/epoch arithmetic'),
'U03': ('symbolic spans; coverage of a symbolic probe point', 'membership of the probe point in the spans'),
'M01': ('64-bit integer arithmetic over all values', 'remainder arithmetic; a month calendar walked day by day'),
'M02': ('printed text parsed back; parsing of symbolic digit strings', 'sum of the components with overflow detection'),
'M03': ('rounding functions and filters on symbolic doubles', 'multiple-of-step arithmetic'),
'M04': ('`adler32` on symbolic strings', 'Adler-32 by its RFC 1950 definition'),
'M05': ('printed text parsed back; parsing of symbolic date strings', 'a calendar written independently'),
'G01': ('`GeneticAlgorithm::evolve` with symbolic fitness and arbitrary draws', 'invariants of every yielded generation'),
'G02': ('the run repeated in-process and in a second symbolic process with other hash keys and the reversed parallel order', 'bit equality'),
'G03': ('crossover and mutation on parameters with symbolic genes', 'positionwise comparison with the parents, generated by walking the parameters'),
'G04': ('`TradingParams::generate` with arbitrary draws, then constructed and run', 'documented ranges written down in harness/src/gen.rs'),
'G05': ('selection and reinsertion on symbolic fitness with arbitrary draws', 'counting of fitter individuals'),
'C01': ('`CoreStatistics`, `PositionStatistics` and `ExtendedStatistics` on summaries with symbolic positions and prices', 'definitions written over the list of positions and a list of portfolio values'),
'C02': ('`get_*` against `Statistics::compose` of the same summary', 'each other (C01 decides one of them)'),
'C03': ('all statistics on arbitrary summaries and on the summaries of symbolic backtests', 'no panic, finite ratios, no NaN'),
'R03': ('every curve on a symbolic progress', 'the published formulas; sine and powers uninterpreted or exact where polynomial'),
'M06': ('splitting of symbolic text of every length within bounds', 'search for the first dash byte by byte'),
'A01': ('the real handler of juno_axum, run in stubs of axum, tokio and reqwest which stand for the router, the threads and the core; answers of the core come in any order', 'direct calls of trade() and the statistics with what the core holds for each symbol'),
'A02': ('as A01, for the optimisation handler', 'a separate run of the genetic algorithm from the same seed, with its hall of fame kept by the harness'),
'A03': ('the recorded requests of both handlers; the real HTTP client on arbitrary answers', 'the list of requests written down in svc/src/h.rs; the answer itself'),
'E01': ('`BasicEvaluation::evaluate` on symbolic markets', '`trade()` + `get_*` per symbol, folded by the documented transform'),
}
o = []
w = o.append
w('''# DESIGN

Solver-based checking of discosultan/juno-optimizer: the compiled code is executed symbolically and every assertion is decided by an SMT solver
for all inputs on every path within stated bounds.

## 1. How a check works

1. `run.py <id>` builds the harness crate (`harness/`, path dependency on `/repo/juno`) with rustc 1.79.0 to LLVM IR (opt-level 2, overflow checks and debug
   assertions on, no vectorisation), and to a shared library. Nothing of the encoding is cached: the IR is regenerated from /repo's current tree on every run (sources are hashed, so a stale cargo
   fingerprint cannot hide a change).
2. `engine/junosym` (C++, LLVM 18 + the z3 API + cvc5 as a binary) executes one harness entry per job. Inputs (`f64_in`, `u64_in`, `any_bool`, random draws) are symbolic variables; memory is concrete in layout and
   symbolic in content. A branch on a symbolic condition asks the solver which sides are feasible and forks. `choice(n)` forks without a solver (configuration enumeration: kinds, gap patterns).
   A panic reached on a feasible path is a violation unless the harness allows it (documented rejections).
3. Each assertion is discharged under its path condition in this order: the rewriter (interval, grid and bit-range analysis; what the path already knows) ->
   **UF** (floating operations as uninterpreted functions with sound axioms; unsat is bit-precise) -> **LIN** and **NRA** (exact reals, rounding ignored; only for assertions with tolerance or where reals are conclusive) -> **FP** (bit-precise IEEE-754).
   Integers can also be decided over unbounded integers with explicit wrap conditions (`INT`). Evidence counts which theory closed what.
4. A model is not yet a violation: it is written as a vector and executed natively (`driver` + the shared library). Only a counterexample that fails natively is reported as
   `VIOLATION property=.. replay=..`; `replay.sh <vec>` reproduces it. Models that do not reproduce are retried in a stronger theory and otherwise counted as undecided.
5. Vacuity: every harness has `cover` points; strict runs (`--strict`, used while developing) fail on missing covers, timeouts, undecided obligations and unsupported instructions. On the unchanged tree all quick checks are strict-clean.
   Each run also executes solver models of completed paths natively and compares the outcome (`concordant` in the evidence), which validates the encoding continuously.
6. Undecided obligations, path timeouts and jobs over budget never raise an alarm; they are listed in the evidence as not covered.

### Approximations and trust

- Trusted: the engine, z3 4.8.12, cvc5, rustc/LLVM, and the stubs below. Counterexamples do not depend on the engine (native replay); *absence* of counterexamples does.
- `close`/`le` assertions accept a relative error of 1e-6, so an implementation that associates sums differently is no violation; obligations closed over the reals ignore rounding and are counted separately (`closed_unsat_lin_reals`, `closed_unsat_nra_reals`).
- ln, log10, exp and powf are uninterpreted functions with monotonicity bounds in intervals; identical applications are equal.
- Stubs (crates patched in harness/Cargo.toml): `rand_chacha` - every draw is an arbitrary value that is a function of seed and position (so the same seed gives the same draws and nothing else is assumed);
  `rand` 0.8.5 with one change - uniform sampling accepts its first draw (a rejected draw is redrawn, which yields the same distribution of accepted values); `rayon` - sequential, and reversed in the second process. getrandom/hash keys differ between the two symbolic processes.
- The services: `svc/` includes juno_axum/src/main.rs as it is (a binary crate cannot be linked) with `axum`, `tokio`, `tokio-rayon`, `reqwest`, `tracing*` and `tower-http` replaced by stubs that keep the types and the
  behaviour the code relies on: a future is polled by a small executor, the core is an in-memory table whose answers may take several polls (in which order is a fork), a status and a body replace the wire. The closure of `spawn` runs at once.
  If a change makes juno_axum use something the stubs lack, the library is still checked (the harness is built without `svc`) and A01-A03 say that they covered nothing.
- A02 runs the genetic algorithm on one fixed stream of draws per seed (`pinned_rng`), since every draw being arbitrary would multiply the paths; G01-G05 have arbitrary draws.
- Allocation always succeeds. The wall clock and the wire are not part of any check.

### Why this reaches what tests cannot

The tests run recorded series through fixed configurations. Here prices, fees, filters, thresholds, gap patterns, draws and fitness values are variables; which candle triggers which rule, ties, equality at thresholds, flat series, zero sizes, limits of exactly zero, and
the sign of every intermediate difference are all case-split by the solver rather than sampled.

## 2. Properties

Every property is claimed; level `model_checking` (bounded). Quick runs take 5-90 s each on 8 cores; thorough ones deepen the same harnesses up to hours. The exact job list is props.py.
''')
for r in spec.R:
    p = props.PROPS[r['id']]; m = M[r['id']]
    w('### %s %s\n\n- Method: %s.\n- Oracle: %s.\n- Bounds: %s.\n- Outside: %s.\n- Why not tests: %s.\n' % (r['id'], r['title'], m[0], m[1], p['bounds'], p.get('outside') or '-', r['why_tests_cant']))
fixes = [l[len('fixed: property='):].strip().split(' ', 2) for l in open('/verif/known_findings.txt') if l.startswith('fixed:')]
seeded = []
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f)); seeded.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks'], m['needs'], m.get('caught', 'caught by ' + m['property'])))
t = open('/verif/tools/design_tail.md').read()
t = t.replace('@@FIXES@@', '\n'.join('- %s (%s): %s' % (a, b, c) for a, b, c in fixes))
t = t.replace('@@SEEDED@@', '| change | property | what it breaks | needs | result |\n|---|---|---|---|---|\n' + '\n'.join(seeded))
w(t)
open('/verif/DESIGN.md', 'w').write('\n'.join(o))
