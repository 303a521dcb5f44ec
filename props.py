"""Which harness entries decide which property, with their bounds. Job: (entry, cfg, timeout_s)."""
COMMON_ASSUMPTIONS = [
    "the encoded program is the LLVM IR rustc 1.79.0 (pinned by /repo) emits for juno plus the harness at opt-level 2 with overflow checks and debug assertions on, vectorisation off; native replay uses the same IR's shared library",
    "the engine (/verif/engine), z3 and cvc5 are trusted; each run cross-checks path concordance by executing solver models natively, and a counterexample is only reported after it reproduces natively",
    "allocation always succeeds; getrandom, rayon and rand_chacha are replaced by deterministic stubs (rayon: sequential in-order; rand_chacha: arbitrary but fixed function of seed and position)",
    "a float assertion marked close/le is decided up to relative 1e-6; obligations closed only by real arithmetic (closed_unsat_*_reals) ignore rounding, the rest are bit-precise",
    "interior evaluation order follows the compiled code; nothing outside the stated bounds is claimed",
]
def G(n, st, sl, tp, fl, rest): return [int('%d%d%d%d%d%02d' % (n, a, b, c, d, rest)) for a in st for b in sl for c in tp for d in fl]
def J(e, t, *cfgs): return [(e, c, t) for c in cfgs]
TR = ('candles: 0..N (N per job, first cfg digit) of symbolic close in [0.01, 1e6] (high/low symbolic where the take profit trends on them), symbolic start time, optionally one missing candle; '
      'symbolic fees in [0,0.1], quote in [0.01,1e9], borrow limit, interest rate, thresholds; strategies SingleMA/DoubleMA (SMA and EMA)/TripleMA/FourWeekRule/Macd/Sig/SigOsc with periods 1..3; margin 1..3; '
      'lot filters none / symbolic min+max / symbolic step / step 0.01; plus series of 6-20 candles whose direction follows one of five patterns, with a gap of 48 candles')
TO = 'longer candle series, strategies with longer periods, margin above 3, zero prices, candles that are not finite'
PROPS = {
 'T01': dict(quick=J('h_t01', 90, 1, 1000001, 2000001, 4000001, 4011002, 4022001, 4100003, 5300002, 4200002, 4400002, 4041002, 5000002, 3030002, 4000012, 4500002, 4031203, 5731102, 5632202) + J('h_t01', 120, 120000302, 46032302),
             thorough=J('h_t01', 120, 4003002, 5030002, 4033102, 4033202, 5100002, 5200002, 6000002, 4000022, 5041002),
             bounds=TR, outside=TO, covers=['two positions', 'cancelled']),
 'T02': dict(quick=J('h_t02', 90, 5731102, 5732202, 4000001, 4000102, 4000203, 3030001, 3031002, 3110012, 4101002, 4200012, 5300002, 3000122, 3000222, 3000232, 4400002, 4000012) + J('h_t02', 120, 18000102, 48001303, 46032302),
             thorough=J('h_t02', 120, 4030012, 4000022, 4000032, 3033102, 3033203, 5000002, 4500002), bounds=TR, outside=TO, covers=['long', 'short']),
 'T03': dict(quick=J('h_t03', 90, 4000001, 4000102, 4000203, 3031003, 3000112, 3000212, 3000213, 3000122, 3000222, 3000233, 3200002, 3101212, 3300003, 4000002) + J('h_t03', 120, 16000102, 16000202),
             thorough=J('h_t03', 120, 4000012, 4000022, 4000133, 3000133, 4030012, 3033002, 4500002), bounds=TR, outside=TO, covers=['long', 'short', 'max', 'limit']),
 'T04': dict(quick=J('h_t04', 60, 4032002, 4041002, 4300002, 4031102, 4032202, 3003202, 4011003, 4022003, 4200002, 4101002, 4042002, 4731002, 4732002, 5711102, 5722102, 5641002, 5731102, 5732202, 5622202, *G(5, (2, 6, 7), (1, 2, 3, 4), (0, 1, 2), (1, 2), 2), *G(4, (1, 4, 8), (3,), (1,), (1, 2), 2), 6210102, 6210202, 6810102) + J('h_t04', 120, 26031102, 36032202),
             thorough=J('h_t04', 240, 16000302, 48032302) + J("h_t04", 300, 3003102) + J("h_t04", 120, 4603102, 4030012, 5731002, 6730102, 6730202, 6632102, 4003102, 4003202, 5000022, 4500002, 5032002, 5041002, 5100002), bounds=TR, outside=TO,
             covers=['closed by strategy', 'closed by stop loss', 'closed by take profit', 'cancelled']),
 'T05': dict(quick=J('h_t05', 180, 3003002) + J('h_t05', 90, 4032002, 4030002, 4011102, 4022202, 4100002, 4200002, 5300002, 4400002, 4000012, 4041002, 5000002, 3000022, 5731102, 5632202, *G(5, (2, 8), (1, 3), (1,), (1, 2), 2)) + J('h_t05', 120, 26031102, 36032202),
             thorough=J('h_t05', 240, 16000302) + J('h_t05', 120, 5030002, 4033102, 4500002, 5100002, 5200002, 6000002), bounds=TR + '; every proper prefix', outside=TO,
             covers=['closed before the cut', 'open across the cut']),
 'T06': dict(quick=J('h_t06', 90, 4030002, 4000002, 5000002, 4022002, 4100002, 4200002, 4400002, 5300002, 4000012, 5100001, 5200001, 5731002, 5632102, 6700202, *G(5, (2, 8), (1, 3), (1,), (1, 2), 2)) + J('h_t06', 120, 16000302, 26031102),
             thorough=J('h_t06', 240, 58022302) + J('h_t06', 120, 3003002, 6730002, 4500002, 6000002, 6100002, 6200002, 5030002, 4033102), bounds=TR, outside=TO, covers=['long', 'short']),
 'T07': dict(quick=J('h_t07', 60, 3000202, 4000202, 4000203, 4000212, 4030202, 3000222, 5000202, 4011202, 4101202, 4200203, 4001202, 5731202) + J('h_t07', 120, 18000202, 24030202, 18000222),
             thorough=J('h_t07', 120, 5030202, 6000202, 4033202, 4000222, 4500202), bounds=TR + '; interest interval one of 30 min, 1 h, 1.5 h, 1 h + 1 ms, 1 day', outside=TO,
             covers=['short', 'several interest intervals', 'zero duration']),
 'R01': dict(quick=J('h_r01', 60, 3, 13, 14, 23, 24, 33, 34, 43, 44), thorough=J('h_r01', 120, 4, 15, 25, 35, 45),
             bounds='every stop loss kind with symbolic thresholds in [0.001, 1] (legacy 0..1); 3-4 (thorough 5) candles with symbolic close/high/low in [0.01, 1e6]; the rule cleared after any subset of the candles, as the trader does while flat',
             outside='longer histories, thresholds above 1; a legacy threshold of 0 means disabled', covers=['upside hit', 'downside hit', 'cleared again']),
 'R02': dict(quick=J('h_r02', 60, 3, 13, 14, 23, 24) + J('h_r02t', 60, 103, 1103, 113, 213) + J('h_r02b', 60, 0) + J('h_r03', 60, 0), thorough=J('h_r02', 120, 15, 25) + J('h_r02t', 240, 203, 1203, 104),
             bounds='every take profit kind with symbolic thresholds in [0.001, 10]; 3-4 (thorough 5) candles, cleared after any subset; trending: periods 1-2, linear and one curved easing, locked and unlocked',
             outside='longer histories, longer trend periods, the remaining easing curves', covers=['upside hit', 'downside hit', 'cleared again', 'trending upside hit', 'trending cleared again']),
 'R03': dict(quick=J('h_r03', 60, *range(31)) + J('h_r03r', 60, *[k for k in range(22) if k not in (13, 14)], 28, 29, 30), thorough=[],
             bounds='all 31 curves, every argument in [0, 1]; staying within the end points for 23 of the 25 which do not overshoot by design',
             outside='arguments outside [0, 1]; that SineIn and SineOut stay within 0..1, which takes facts about the sine the solver lacks (what they compute is decided)', covers=[]),
 'A01': dict(quick=J('h_a01', 90, 9120000, 9130001, 9150000, 9130002, 9210000, 9340000, 100000, 110000, 1100000, 1110000, 2100000, 2120000, 3110000, 3130000, 4110000, 5120000, 6140000, 7141000, 8140000, 4112003, 2131000),
             thorough=J('h_a01', 240, *[f * 1000000 + 122000 for f in range(9)], 9320000, 9231003),
             bounds='one to three symbols, given in several orders and more than once; intervals of 6, 8 and 12 hours over 1-3 days; over one day one price of one symbol symbolic in one of three ranges that together cover [4, 30], every other figure (and every price over several days) fixed and different for every symbol; answers of the core in any order (two polls each) or in fixed orders',
             outside='trading parameters other than one strategy with a stop loss (what trade() and the statistics do with them is T01-T07 and C01-C04), HTTP and JSON text themselves', covers=['backtest', 'Long', 'Short']),
 'A02': dict(quick=J('h_a02', 120, 9381110000, 19381110000, 79211110000, 79322110000, 29384210000, 39481210000, 49482220000, 59381221000, 69393112000, 89381222000, 99372113100, 29331213200, 9363101100, 70211000000, 71211110000, 73322110000, 12311111000, 43221210000, 23311212000) + J('h_a03', 60, 0),
             thorough=J('h_a02', 300, 60322110000, 31331211000, 21321113000),
             bounds='populations of 2-4, 1-9 generations, hall of fame of 1-4, four splits of up to three symbols into training and validation, one to three intervals, every statistic and aggregation; random draws of one fixed stream per seed (ten seeds); the price of one symbol symbolic in some, fixed in others',
             outside='larger runs, other random streams, contexts which leave more than the stop loss and interval open (G03 and G04 cover generation and mutation)', covers=['improvement', 'no improvement', 'Long', 'Short']),
 'A03': dict(quick=J('h_a01', 60, 9110100, 9110110, 9110120, 9110130, 9110200, 9110210, 9110220, 9110230, 9110300, 9110310, 9110320, 9110330, 9110400, 9110410, 9110420, 9110430, 9110001, 9130002, 9130005) + J('h_a02', 60, 79211110010, 79211110021, 79211110042, 79322220033, 79322220060, 79211110030)
               + J('h_a03c', 60, *[n * 100 + m * 10 + b for n in (0, 2, 9) for m in range(5) for b in range(4)]),
             thorough=J('h_a03c', 120, *[3000 + m * 10 for m in range(5)]),
             bounds='every method of the client with up to 9 (thorough 30) items of symbolic content, every HTTP status from 100 to 599, answers that are right, messages, nonsense or missing; both services with each kind of request to the core failing in each of four ways',
             outside='HTTP and JSON text themselves, which reqwest and serde_json turn into the values modelled here', covers=['answer', 'refusal', 'failure']),
 'M01': dict(quick=J('h_m01a', 60, *range(14)) + J('h_m01s', 60, 8, 16, 24) + J('h_m01o', 60, *range(13)) + J('h_m01t', 60, *range(12)) + J("h_m01m", 60, *range(1970, 2030), 2100),
             thorough=J('h_m01s', 120, 31) + J('h_m01m', 60, *range(1971, 2120)),
             bounds='multiples: all 64-bit values for 14 multiples (1 ms .. week, 7, 2^40, ...), every multiple, quotient and remainder up to 2^24 (thorough 2^31); offsets 0, 1, 5 and the week offset; timestamps up to 2^53 for every interval up to a week; months: every millisecond of the years 1970-2029 and 2100 (thorough 1970-2119)',
             outside='flooring to weeks before 1970-01-05, which has no representable result; intervals between a week and a month, or above a month, which the code does not support', covers=['exact multiple', 'between multiples', 'before the offset', 'exact month start']),
 'M06': dict(quick=J('h_sym', 60, *range(1, 17)), thorough=[],
             bounds='every printable text of 1-16 characters with its first dash at any place', outside='longer text; text without a dash, which is no symbol', covers=['no base', 'no quote']),
 'M02': dict(quick=J('h_m02a', 60, 1, 2, 4, 8, 16, 32, 64, 128, 3, 6, 12, 24, 48, 96, 192, 129, 65, 7, 56, 224) + J('h_m02b', 90, *range(15)) + J('h_m02c', 60, 150, 990020, 59995010, 3599995010, 86399995010, 604799995010, 2629745995010, 31556951995010),
             thorough=J('h_m02a', 240, *[m for m in range(1, 256) if bin(m).count('1') <= 3]) + J('h_m02b', 240, 15) + J('h_m02c', 240, 999, 1000999),
             bounds='round trip: every combination of up to two or three adjacent units with any count 1-9 (canonical), every value up to 150 ms (thorough 2 s) and every value within 5 ms of each unit; parsing: 15 shapes of up to 64 characters with every digit free (numbers up to 21 digits, so overflow is included), unit letters from y M w d h m s plus three letters that are no unit',
             outside='text of other shapes; characters between components, which the parser ignores', covers=['ok', 'rejected']),
 'M03': dict(quick=J('h_m03r', 60, 0, 1, 2, 4, 8, 9, 10, 12, 18) + J('h_m03f', 60, 0, 1, 10, 11, 100, 101, 110, 111) + J('h_m03v', 60, 0, 1, 10, 11, 20, 21, 50, 51),
             thorough=J('h_m03r', 120, *range(19)) + J('h_m03v', 120, 70, 71, 30, 31, 100, 101),
             bounds='rounding: every value in [0, 1e6], precisions 0-18 (quick: nine of them); filters: every value in [0, 1e6] with symbolic minimum, maximum (or none) and step (or none); validity on whole numbers up to 100000 with steps 0, 1, 2, 5 (thorough 3, 7, 10), minima of 0, 1 or 7 steps, maxima of none, 7, 8 or 1000 steps',
             outside='negative values; validity on fractional steps, where it depends on binary rounding', covers=['below the minimum', 'kept', 'valid']),
 'M04': dict(quick=J('h_m04', 60, 0, 1, 2, 3, 4, 6, 8, 12), thorough=J('h_m04', 240, 16),
             bounds='every ASCII string of 0, 1, 2, 3, 4, 6, 8 and 12 (thorough 16) characters; the distinctness of the moving average codes is covered by the generated parameters of G04', outside='longer strings', covers=[]),
 'M05': dict(quick=J('h_m05a', 60, 100, 101, 103, 1100, 1091, 2092, 3100, 3092, 4091, 5091, 6031) + J('h_m05b', 60, 20200, 20210, 19700, 21000, 20000, 20201, 20211, 19991),
             thorough=J('h_m05a', 240, 3990, 4990, 6102, 5990) + J('h_m05b', 240, *[y * 10 for y in range(1971, 2101)]),
             bounds='printing and parsing back: runs of consecutive milliseconds, 10 ms, ... days from five starting points (1970, 2020-09-13, end of February 2000, end of 2099, end of 9999); parsing: every day number 00-39 and every month 00-12 of eight years (thorough 130), for three of them with every hour 00-29, minute and second 00-59',
             outside='timestamps beyond the year 9999, other UTC offsets', covers=['valid date', 'no such date']),

 'I01': dict(quick=J('h_i01', 60, 6010, 8020, 10030, 12040, 6110, 8120, 10130, 12140, 6210, 8220, 10230, 12240, 6410, 8420, 10430, 12440, 3510, 4520, 5530, 6540, 5610, 6620, 7630, 8640, 5310, 7320, 9330, 11340, 5111, 6121, 6131, 5112, 6122, 6132, 5113, 5123, 4611, 5621, 7641, 4612, 5622, 7642, 4613, 5623, 7643)
               + J('h_i01c', 30, *[900 + k * 10 + p for k in range(7) for p in (1, 2, 3)])
               + J('h_i01l', 60, *[(2 * p + 3) * 10000 + k * 1000 + p for k in (0, 1, 2, 4, 6) for p in (5, 7, 10, 14, 21)], 1050050, 930030, 153005, 183007, 243010, 105005, 125006, 145007, 165008, 205010, 1066050, 2050100, 2056100, 305014, 245010),
             thorough=J('h_i01l', 120, 1051050) + J('h_i01', 120, 14050, 18060, 14150, 18160, 14250, 18260, 17350, 14450, 18460, 7520, 8530, 8540, 12650, 14660, 8123, 8133),
             bounds='all seven moving averages with periods 1-4 (thorough 6) over 4-12 symbolic prices in [0.01, 1e6], and 5-21 (some up to 100) over up to 205 prices; explicit smoothing 0.5, 1 and symbolic; four offset/sigma pairs',
             outside='longer periods and series, prices outside the range', covers=['mature', 'immature']),
 'I02': dict(quick=J('h_i02', 90, 40100, 50200, 40300, 30111, 41211, 41222, 51321, 41122, 62122, 62232, 62133, 272009, 43100, 53200, 43300, 33200, 43400, 44100, 34200, 34300, 45100, 45200, 45300, 36100, 46200, 46100)
               + J('h_i02l', 60, 220007000, 330014000, 412305000, 224314000, 312405000, 309405000, 312505000, 330514000, 412605000, 540507000, 540607000, 560614000, 420305000, 307105011, 520204083, 312407000),
             thorough=J('h_i02l', 120, 308105021, 314407000, 516205103) + J('h_i02', 300, 50300, 60200, 51223, 372009, 44200, 44300, 44400, 53300, 56200, 55200),
             bounds='RSI, stochastic, MACD (including the special 12/26 smoothing), DM, DI, DX, ADX with periods 1-3 over 3-6 candles of symbolic close, high and low in [0.01, 1e6] (MACD 12/26: 27 prices); longer ones (RSI 7 and 14, MACD 10/20, DM, DI, DX and ADX 5-14, stochastic 5-16) on series of up to 60 symbolic candles whose direction is one of five fixed patterns',
             outside='longer periods and series; MACD with short period above long period, which it rejects; on a market without any movement RSI, K, DI and DX are 0 by convention', covers=['mature']),
 'I03': dict(quick=J('h_i03m', 60, *[(2 * p + 3) * 1000 + k * 100 + p for k in range(7) for p in (1, 2, 3, 5, 8) if k != 5 or p < 6], *[(2 * p + 2) * 1000 + k * 100 + p for k in (0, 1, 2, 3, 4, 6) for p in (10, 14, 20, 26, 50) if p < 50 or k not in (1, 2, 3)])
               + J('h_i03', 60, 40100, 50200, 60300, 80500, 41111, 41222, 51223, 61321, 62122, 62232, 372009, 43100, 43200, 43300, 44100, 44200, 44300, 45100, 45200, 45300, 46100, 46200, 56200) + J('h_i03l', 60, 330014000, 320114033, 540200009, 240210209, 220314000, 320414000, 520514000, 432614000),
             thorough=J('h_i03', 240, 73332, 66300, 53400, 54400), bounds='moving averages: periods 1, 2, 3, 5, 8 (Kaufman up to 5), 10, 14, 20, 26, 50; other indicators: periods 1-5, and around 14 on series moving in one of five fixed patterns; two to three updates past maturity; symbolic prices and candles',
             outside='longer periods', covers=['mature']),
 'I04': dict(quick=J('h_i04', 90, 40100, 50200, 60300, 41111, 41222, 41211, 62122, 62232, 43100, 43200, 43300, 44100, 34200, 44200, 34300, 45100, 45200, 45300, 46100, 46200)
               + J('h_i04m', 60, 4010, 5020, 7030, 4110, 5120, 6130, 5123, 4210, 5220, 6230, 7330, 5320, 4410, 5420, 6430, 4510, 4520, 5520, 5530, 4630, 5621, 6642) + J('h_i04l', 60, 220007000, 520507000),
             thorough=J('h_i04', 300, 51223, 51321, 44300, 56200, 70400, 53300) + J('h_i04m', 120, 9040, 9140, 9240, 9440, 7540, 9640, 7530) + J('h_i04l', 120, 520607000),
             bounds='as for the definitions: periods 1-3 (thorough 4) over 3-7 symbolic candles within [0.01, 1e6], which include constant stretches; RSI and DX 7 over 20 candles moving in a fixed pattern',
             outside='longer periods and series; a double exponential average may overshoot the prices by design and is only kept within three ranges of them', covers=['constant']),
 'S01': dict(quick=J('h_s01', 60, 5000, 5001, 5010, 6051, 6031, 5100, 5141, 5200, 6300, 6400, 5402, 6502, 7501, 4600, 5700, 5701, 6714, 5712, 6725, 6733, 6742, 5753, 5801, 4810, 5813, 5824, 6843),
             thorough=J('h_s01', 300, 5832) + J('h_s01', 120, 7031, 6151, 7041, 5600, 6601, 5810, 6813, 6732, 7300, 8402), bounds='every strategy kind, each moving average kind, periods 1-4, persistence 0-2, mid-trend policies current and ignore, both oscillator filters; 4-7 (thorough 8) candles of symbolic prices in [0.01, 1e6]',
             outside='longer periods and series; the mid-trend policy Previous is documented to look one candle back and advises one candle before it reports maturity, so only the other policies are covered', covers=['immature', 'mature', 'advice at maturity or later']),
 'S02': dict(quick=J('h_s02', 60, 5001, 5011, 5021, 4031, 5041, 4051, 5061, 6021, 5100, 5110, 5121, 5131, 5141, 4150, 5160, 5200, 5201, 5260, 5300, 6300, 5301, 5311, 5302, 5400, 5410, 5401, 6400, 5402, 5461, 5500, 6501, 5502, 4600, 4610, 4601) + J('h_s02o', 60, 401, 402, 312, 321, 313, 503),
             thorough=J('h_s02', 120, 7001, 6001, 7100, 7300, 8400, 7402, 8500, 5600, 5150, 6031, 5601), bounds='every strategy kind with each moving average kind, periods 1-4, oscillator thresholds symbolic; 4-6 (thorough 8) candles of symbolic prices in [0.01, 1e6]',
             outside='longer periods and series; indicator values are taken from the indicators, whose definitions are the subject of I01 and I02', covers=['long', 'short', 'liquidate', 'no advice', 'overbought', 'oversold']),
 'S03': dict(quick=J('h_s03', 60, 500000, 500010, 600020, 600002, 700012, 500310, 500200, 500100, 700010, 700022, 600021, 600001, 600310, 700410, 600510, 410000, 410010, 410002, 420000, 420012, 411000, 421000, 421001, 410300, 420310, 410100, 420510) + J('h_s03b', 60, 620, 630, 421, 424),
             thorough=J('h_s03', 240, 800021, 800012, 511000, 521012, 510012, 520022, 510310), bounds='signals DoubleMA/SingleMA/FourWeekRule/TripleMA/Macd/DoubleMA2, oscillators RSI and Stoch with both filters, persistence 0-2, every mid-trend policy, buffering by 2 or 3; 4-7 (thorough 8) candles of symbolic prices',
             outside='longer persistence and series; the signal and the oscillator themselves are S02', covers=['long', 'short', 'liquidate', 'no advice', 'blocked by the oscillator']),
 'U01': dict(quick=J('h_u01', 60, 500, 600, 410, 420, 421, 422, 523, 432, 531, 633, 640, 450, 460, 660) + J('h_u01c', 60, 0), thorough=J('h_u01', 120, 1000, 1021, 1032, 1060), bounds='every sequence of 4-6 (thorough 10) symbolic advices, persistence levels 0-3, every policy, filter on and off',
             outside='longer sequences and levels', covers=['changed', 'unchanged', 'persisted', 'not persisted']),
 'U02': dict(quick=J('h_u02', 60, 330, 420, 430, 450, 401, 322, 422, 410, 530, 303, 403, 313, 413), thorough=J('h_u02', 240, 501, 550, 630, 720, 503), bounds='3-5 (thorough 7) candles with symbolic prices and volumes, symbolic start; each next candle 1-5 small intervals later; one minute into 1-5 minutes, days into weeks, days and half days into months (around the end of January 2021), buffering off',
             outside='other ratios of intervals, wider gaps, other months (M01 decides the calendar itself); a finished interval pending when the next candle itself finishes one panics as documented', covers=['completed', 'gap over the end']),
 'U03': dict(quick=J('h_u03m', 60, 0, 1, 2, 3, 4, 5, 6) + J('h_u03g', 60, 0, 1, 2, 3, 4) + J('h_u03p', 60, 1, 2, 3, 5), thorough=J('h_u03m', 240, 8) + J('h_u03g', 240, 5, 6) + J('h_u03p', 240, 12), bounds='up to 6 (thorough 8) symbolic sorted spans over all of u64, any requested range; paging: intervals 1 ms, 1 s, 1 min, 1 day, limits 1, 2, 7, 1000, symbolic range below 2^51 of at most 5 (thorough 12) pages',
             outside='more spans or pages; spans given unsorted or overlapping', covers=['merged', 'apart', 'several missing', 'nothing missing', 'no page', 'one page', 'several pages']),
 'G01': dict(quick=J('h_g01', 60, *[p * 10000 + g * 1000 + x for p in (2, 3) for g in (0, 1) for x in (0, 1, 3, 4, 10, 11, 13, 14, 20, 21, 24, 34)], 22000, 22001, 22004, 22020, 22021, 22034, 32001, 32003, 41001, 41003, 41011, 31101, 32201, 41034) ,
             thorough=J('h_g01', 600, 23000, 23001, 23020, 32000, 32004, 32010, 32021, 32014, 41000, 41004, 41020, 41010, 41021, 51001, 51003, 51000, 42003, 42034),
             bounds='populations of 2-5, 0-3 generations, symbolic fitness in [-1e6, 1e6] of every individual ever generated or mutated, any outcome of every random draw; elite (plain, shuffled), tournament and random selection with elite (four rates), fitness and pure reinsertion; crossover and mutation free to happen or not',
             outside='larger populations, more generations; elite selection with a reinsertion that asks for more offspring than parents, which it rejects; fitness that is not a number, which it rejects', covers=['improved', 'kept']),
 'G02': dict(quick=J('h_g02', 60, 5000, 15000, 5080, 15080, 25080, 5808, 5888, 5890, 5090, 7500, 17500, 8500, 15810, 15830),
             thorough=J('h_g02', 600, 15808, 15888, 14000, 15803, 9000, 5008, 5803), bounds='population 2, 0-2 generations, any outcome of every random draw; contexts that leave free: moving averages, stop loss kind and thresholds, take profit easing and lock, filtered strategies; the second process has other hash keys and runs parallel loops in the reverse order',
             outside='larger populations and contexts; a run time dependent fitness', covers=[]),
 'G03': dict(quick=J('h_g03u', 60, 0, 10, 20, 30, 40, 1, 11, 21, 31, 41)
               + J('h_g03x', 60, *[(k * 1000 + b) * 10000 + k * 1000 + b for k, b in ((0, 11), (1, 22), (2, 33), (3, 41), (4, 3), (5, 33), (6, 12), (7, 10), (7, 111), (7, 222), (7, 333), (8, 11), (8, 133), (8, 243))], 50115023, 10330022, 71117211, 80118411, 70008000, 20213000)
               + J('h_g03f', 60, 0, 1011, 2022, 3033, 4041, 5003, 6012, 7011, 7122, 7233, 7343, 7400, 7511, 7622, 8011, 8133, 8233, 8343, 8422, 8511, 8600)
               + J('h_g03m', 60, *[s * 1000 + x for s in range(6) for x in (0, 22)], 6000, 5010, 5030, 5040, 5001, 5002, 5003, 5033, 7000, 7100, 7200, 7300, 7400, 7500, 8001, 8101, 8201, 8300, 8401, 8501),
             thorough=J('h_g03m', 300, 5099, 7600, 8601, 6022, 1042, 6033), bounds='uniform crossover and mutation of four genes at rates 0, 1/4, 1/2, 3/4, 1; crossing, mutating and fixing every position of trading parameters with every strategy, nested signal, oscillator, stop loss and take profit kind, genes symbolic over all their values',
             outside='chromosomes longer than four positions in uniform crossover; combinations of kinds not listed', covers=['left', 'hit', 'mutated', 'kept', 'shared', 'not shared']),
 'G04': dict(quick=J('h_g04', 60, *[s * 1000 for s in range(7)], *[7000 + s * 100 for s in range(7)], *[8000 + s * 100 for s in range(7)], 5010, 5020, 5030, 5040, 5001, 5002, 5003, 5090, 5009, 9000) + J('h_g04p', 60, *range(13))
               + J('h_g04c', 60, 20000, 21000, 23000, 24000, 25000, 26000, 43000, 44000, 45000, 46000, 25010, 25020, 25030, 25040, 25001, 25002, 25012, 25022),
             thorough=J('h_g04', 600, 5093, 9010) + J('h_g04c', 300, 22000, 48400, 48500, 48000, 42000, 25003), bounds='any outcome of every random draw (a rejected draw of a uniform sample is redrawn), every strategy, nested signal, oscillator, stop loss and take profit kind, free or chosen; every period up to 300 is constructed and run for 3 prices; whole configurations with periods up to 3 and symbolic thresholds are constructed and run for 2-4 candles',
             outside='combinations of strategy, stop loss and take profit drawn together (they are drawn independently); running long periods for longer', covers=['ran']),
 'G05': dict(quick=J('h_g05s', 60, *[n * 100 + r * 10 for n in range(1, 8) for r in range(5)], 222, 322, 422, 522, *[n * 100 + r * 10 + w for n, w in ((2, 3), (3, 3), (4, 3), (5, 3), (3, 4), (4, 4), (5, 4), (4, 5)) for r in (0,)], 223, 323, 324, 311, 421, 521, 621)
               + J('h_g05d', 60, 2, 3, 4, 5, 6) + J('h_g05r', 60, *[n * 110 for n in range(2, 7)], *[n * 100 + m * 10 + w for n in range(2, 7) for m in range(1, n) for w in range(2, 7)], 231, 241, 341, 351, 451),
             thorough=J('h_g05s', 600, 423, 523, 424, 505, 425, 524), bounds='populations of up to 7 with symbolic fitness (ties included), rates 0.1 to 1, tournaments of 1-3 contenders, any outcome of every random draw, elite, fitness and pure reinsertion with every generation rate in quarters',
             outside='larger populations and tournaments', covers=['best wins', 'worst possible wins']),
 'C01': dict(quick=J('h_c01', 60, 0, 1, 2, 12, 21, 11, 22, 143, 434, 343) + J('h_c01x', 60, 1100000, 1200001, 1200004, 0, 100000, 100003, 100004, 200001, 200002, 200012, 200004, 210034, 300021, 300034, 210001),
             thorough=J('h_c01', 200, 3434, 3344, 134, 234, 314) + J('h_c01x', 300, 1300001, 1300004, 1300012, 1310034, 400021, 300012, 310021, 400034, 300434),
             bounds='up to 3 (thorough 4) positions, long and short in any order, each with symbolic cost, fills, fees, times and (for two of them) close reason; price series of up to 3 (thorough 4) symbolic days or hours, positions within one period, across periods and open until the end',
             outside='longer lists and series; positions that cost less than 0.01; positions changing in the last, incomplete period of the prices, which are not valued; ln and powf are taken as given functions', covers=['positions', 'no drawdown', 'drawdown', 'losses', 'no losses']),
 'C02': dict(quick=J('h_c02', 60, 0, 1, 2, 12, 21, 434, 343, 212) + J('h_c02x', 60, 1200001, 0, 100000, 100003, 100004, 200001, 200002, 200012, 200034, 210034, 300021, 200005, 210001),
             thorough=J('h_c02', 200, 3434, 4343, 1212) + J('h_c02x', 300, 1300001, 1300012, 400021, 300434, 300034, 310021),
             bounds='as for C01', outside='as for C01', covers=[]),
 'C03': dict(quick=J('h_c03', 60, 0, 100000, 100001, 100003, 100004, 200001, 200003, 200002, 200034, 200005, 210034, 300021, 300000) + J('h_c03t', 60, 1, 1000002, 2000002, 2000102, 2000202, 2731002, 2030002, 2000012, 2001002),
             thorough=J('h_c03', 300, 400021, 300034, 300434, 310012) + J('h_c03t', 600, 3000102, 3000002, 3003001, 3030002),
             bounds='summaries as for C01, and those of actual backtests over up to 2 (thorough 3) symbolic daily candles with every trade setting of the T checks; prices symbolic in [0.01, 1e6]',
             outside='longer series; a single position held for minutes may have an annualised return beyond the range of a double, which is reported as infinite', covers=['traded', 'not traded', 'losses', 'no losses']),
 'E01': dict(quick=J('h_e01', 60, *[20000021 * 100 + s * 10 + a for s in range(4) for a in range(3)], *[20000022 * 100 + s * 10 + a for s in range(4) for a in range(3)], *[30000021 * 100 + s * 10 + a for s in range(2) for a in range(3)], 3000002120, 3000002121, 2731002210, 2000002300, 3030002100, 1000002221, 3600002210, 3030002111, 2000002321),
             thorough=J('h_e01', 300, 3000002130, 3000002131, 3000002132, 2000012201, 3000002302, 3000002200, 3000002211, 2000002331, 3003001101),
             bounds='1-3 symbols with their own symbolic candles (1-3 days, also with a missing day), fees, filters and borrow limits; every statistic with every aggregation; quote in [0.01, 1e9]; a second process with other hash keys and the reverse parallel order',
             outside='more symbols or candles; that fitness is a number is not decided for the factored logarithm of the Sharpe and Sortino ratios; log10 and powf are taken as given functions', covers=['traded']),
}
