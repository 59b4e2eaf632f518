"""C13 numbers survive conversion to text and back; integers print without a fraction"""
import copy
import math
import struct

from .. import core
from ..enc import cps, enc_num
from ..gen import rng_for

TEXTS = '''
function shout(x):
    return 'v' + x
endfunction
systemLog(x)
systemLog('v' + x + 'w')
systemLogDebug(x)
s = ''
s = s + x
return arrayNew(\\
    '' + x, x + '', 'v' + x, x + 'w', 'v' + (x) + 'w', stringNew(x), arrayJoin(arrayNew(x), ','), arrayJoin(arrayNew(x, x), ' '), shout(x), s, \\
    arrayJoin(arrayNew('v', x, 'w'), ''), stringNew(-(-x)), '' + x * 1, if(true, '' + x), systemPartial(stringNew, x)(), stringNew(arrayGet(arrayNew(x), 0)))
'''.replace('systemPartial(stringNew, x)()', "stringNew(objectGet(objectNew('k', x), 'k'))")


def encode(v):
    if v is None:
        return ['z']
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return enc_num(v)
    return ['x']


def script(text, glob):
    from bare_script import execute_script, parse_script
    logs = []
    result = execute_script(parse_script(text), {'globals': glob, 'logFn': logs.append, 'debug': True, 'maxStatements': 10000})
    return result, logs


def expression(text, glob):
    from bare_script import evaluate_expression, parse_expression
    return evaluate_expression(parse_expression(text), {'globals': glob}, None, True)


def literal(t):
    from bare_script import evaluate_expression, parse_expression
    try:
        values = [evaluate_expression(parse_expression(t)), script('x = ' + t + '\nreturn x', {})[0], script('return arrayGet(arrayNew(' + t + ',' + t + '), 1)', {})[0]]
    except Exception: # pylint: disable=broad-except
        return ['x']
    if any(repr(float(v)) != repr(float(values[0])) if encode(v) != ['x'] else True for v in values):
        return ['x']
    return encode(values[0])


def back(t):
    try:
        values = [script('return numberParseFloat(t)', {'t': t})[0], expression("parseFloat('' + t)", {'t': t})]
        if encode(values[0]) != encode(values[1]):
            return ['x']
    except Exception: # pylint: disable=broad-except
        return ['x']
    return encode(values[0])


def texts_of(x):
    try:
        result, logs = script(TEXTS, {'x': x})
    except Exception: # pylint: disable=broad-except
        return [['?', ['x'], ['x']]]
    found = set()
    parts = list(result) + logs
    if len(parts) != 19 or not all(isinstance(p, str) for p in parts):
        return [['?', ['x'], ['x']]]
    for p in parts:
        for piece in p.split(' ') if ' ' in p else [p]:
            found.add(piece[1 if piece[:1] == 'v' else 0:len(piece) - 1 if piece[-1:] == 'w' else len(piece)])
    return [[t, back(t), literal(t) if x >= 0 else ['z']] for t in sorted(found)]


def observe(chunk):
    out = []
    for case in chunk:
        if case[0] == 'num':
            out.append(['num', encode(case[1]), [[cps(t), b, l] for t, b, l in texts_of(case[1])]])
        elif case[0] == 'float':
            out.append(['float', cps(case[1]), back(case[1])])
        else:
            _, t, radix = case
            try:
                glob = {'t': t, 'r': float(radix)}
                vals = [script('return numberParseInt(t, r)', dict(glob))[0]]
                if radix == 10:
                    vals += [script('return numberParseInt(t)', dict(glob))[0], expression("parseInt(t + '')", dict(glob))]
                res = encode(vals[0]) if all(v == vals[0] for v in vals) else ['x']
            except Exception: # pylint: disable=broad-except
                res = ['x']
            out.append(['int', cps(t), radix, res])
    return out


def numbers(deep):
    res = [0., -0., 0.1, 1 / 3, 2 / 3, math.pi, math.e, 5e-324, 2.2250738585072014e-308, 2.225073858507201e-308, 1.7976931348623157e308, 9007199254740992., 9007199254740993., 9007199254740991., 1e15, 1e16, 1e17, 1e20,
           1e21, 1e22, 1e23, 123456789012345680000., 1e-4, 1e-5, 1e-6, 1e-7, 0.00001234, 1.5e16, 1.5e15, 4503599627370496.5, 0.3, 0.1 + 0.2, 100., 1000., 1e5, 10.5, 1.05, 100.01, 20., 0.5, 1e-320, 123e-322]
    rng = rng_for(core.SEED, 'C13')
    exps = range(-320, 309) if deep else list(range(-30, 31)) + [rng.randrange(-320, 309) for _ in range(60)]
    for k in exps:
        res.append(float(f'1e{k}'))
        res.append(float(f'{rng.randrange(1, 10 ** rng.choice([1, 2, 5, 15, 17]))}e{k - 8 if k > -300 else k}'))
    for k in range(-1074, 1024, 1 if deep else 31):
        res.append(2.0 ** k)
    for base in (2 ** 53, 10 ** 15, 10 ** 16, 10 ** 17, 10 ** 21, 10 ** 22, 2 ** 30, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64, 10 ** 6, 10 ** 7):
        for d in (-3, -2, -1, -.5, 0, .5, 1, 2, 3):
            res.append(float(base + d))
    for _ in range(8000 if deep else 500):
        x = rng.choice(res)
        for _ in range(rng.choice([1, 1, 2, 5])):
            x = math.nextafter(x, rng.choice([math.inf, -math.inf, 0.]))
        res.append(x)
    for _ in range(40000 if deep else 3000):
        x = struct.unpack('<d', rng.getrandbits(64).to_bytes(8, 'little'))[0]
        res.append(x)
    for _ in range(20000 if deep else 3000):
        # a number as people write it
        res.append(rng.randrange(10 ** rng.choice([1, 2, 3, 5, 8, 12, 15, 16, 17])) / 10 ** rng.choice([0, 1, 2, 3, 5, 8, 10, 15]))
    for _ in range(10000 if deep else 500):
        res.append(float(rng.randrange(10 ** rng.randrange(1, 25)) * 10 ** rng.choice([0, 0, 1, 2, 5, 10, 20])))
    for _ in range(4000 if deep else 200):
        res.append(math.ldexp(rng.random() + 0.5, rng.randrange(-60, 80)))
        res.append(math.ldexp(rng.getrandbits(52), -1074))
    res = [x if rng.random() < 0.8 else -x for x in res if math.isfinite(x)]
    # the same held as ints
    res += [int(x) for x in res if x == int(x) and abs(x) < 2 ** 70][::3]
    res += [rng.randrange(-2 ** 53, 2 ** 53) for _ in range(60)] + [10 ** k for k in range(1, 20)]
    return list({repr(x): x for x in res}.values())


FLOATS = ['', ' ', '.', '-', '+', 'e', '1e', '1e+', '1e-', '.e1', 'e1', '1.2.3', '1..2', '--1', '+-1', '-+1', '++1', '1-', '1+', '1 2', '1,000', '1,5', '1_000', '1_0.5', '_1', '1_', '0x10', '0X1F', '0b1', '0o7',
          '1e5', '1E5', '1e+5', '1e-5', '1E-05', '+1', '-1', '+1.5e3', '.5', '-.5', '+.5', '5.', '5.e1', '.5e1', '00', '007', '-00.50', '1e0', '0e0', '0e999', '0e-999', '-0', '-0.0', '1e308', '1e309', '-1e309', '1e999', '1e99999',
          '1.7976931348623157e308', '1.7976931348623158e308', '1.7976931348623159e308', '1e-323', '1e-324', '3e-324', '1e-999', '1e-400', 'nan', 'NaN', 'NAN', '-nan', '+nan', 'inf', '-inf', 'Inf', 'INF', '+inf', 'infinity',
          'Infinity', '-Infinity', 'infinit', 'nanx', 'null', 'true', 'false', 'abc', '12abc', 'abc12', '12 abc', '5px', '$5', '5%', '1/2', '1:30', '2e3.5', '2e3e4', '1e5 x', '1.5d', '1.5f', '10L', '0x1p3', '1j', '(1)', "'1'", '"1"',
          '\u00bd', '\u00b2', '1\u00b2', '\u2212' + '1', '\u4e09', '1\u4e09', '\u2160', '\U0001f600', '1\U0001f600', '\xe9', '1\xe9', 'e\u0301', '1\x00', '\x001', '1\x7f', '1\x1b', '\x081', '1\\n', '\\t1', '#1', '1#', '1;', 'NULL', 'None', '1e٣x',
          ' 1', '1 ', '\t1.5\n', '\x0b1', '1\x0c', '- 1', '-\t1', '1 e5', '1e 5', '1. 5', '1 .5', '9' * 20, '9' * 309, '1' + '0' * 308, '1' + '0' * 309, '0.' + '0' * 330 + '1', '0.' + '0' * 300 + '123', '4.35', '0.1', '123456789.123456789123456789',
          '2.2250738585072011e-308', '9007199254740993', '9007199254740992.5', '9007199254740993.0000000001', '8.5e-1', '1e22', '1e23', '5e-324', '2.5e-324', '2.4703282292062327e-324', '2.4703282292062328e-324']
INTS = ['', ' ', '-', '+', '0', '-0', '+0', '1', '-1', '+1', '007', '12', '12.5', '12.0', '12.', '.5', '1e3', '1E3', 'e', 'ff', 'FF', 'fF', 'zz', 'g', '9', '8', '2', '10', '0x10', '0X1f', '-0x1f', '0b1', '0b12', '0B10', '0o7', '0o8', 'x10', '0x', '0b',
        '0xg', '1_000', '_1', '1_', '1__0', '12abc', '12 3', '1,000', '--1', '+-1', 'nan', 'inf', 'Infinity', 'null', 'true', ' 12', '12 ', '\t12\n', '- 1', '9007199254740991', '9007199254740993', '-9007199254740993', '9' * 20, '1' * 60, '9' * 400,
        'z' * 30, '\u00b2', '1\u00b2', '\u00bd', '\u4e09', '1\x00', '1\xe9', '\U0001f600', '1' + '0' * 22, 'deadBEEF', '777', '101', '2147483648', '4294967296', '-2147483649', '0' * 30 + '5', '1\\n', '1e', 'a1', '1a', '1A']


def cases():
    deep = core.TIER == 'thorough'
    res = [('num', x) for x in numbers(deep)]
    rng = rng_for(core.SEED, 'C13', 'text')
    res += [('float', t) for t in FLOATS]
    for t in INTS:
        for radix in {10, 16, 2, 8, 36, rng.randrange(2, 37), rng.randrange(2, 37)}:
            res.append(('int', t, radix))
    for _ in range(20000 if deep else 2500):
        r = rng.random()
        if r < 0.4:
            t = ''.join(rng.choice('0123456789.e+-') for _ in range(rng.choice([1, 2, 3, 5, 8])))
        elif r < 0.8:
            # one edit away from a number
            t = rng.choice([repr(struct.unpack('<d', rng.getrandbits(64).to_bytes(8, 'little'))[0]), str(rng.randrange(10 ** 6)), f'{rng.random():.3f}', f'-{rng.random() * 1000:.2e}', rng.choice(FLOATS)])
            i = rng.randrange(len(t) + 1)
            t = t[:i] + rng.choice('0123456789.eE+-_, xnaif\t\u00e9\u4e09') + t[i + rng.choice([0, 1]):]
        else:
            t = f"{rng.choice(['', '-', '+'])}{rng.randrange(10 ** rng.choice([1, 5, 20, 40]))}{rng.choice(['', '.', '.5', '.' + str(rng.randrange(10 ** 9)), '.' + '0' * 30 + '1'])}{rng.choice(['', '', 'e5', 'E-10', 'e+300', 'e-330', 'e' + str(rng.randrange(-340, 320))])}"
        res.append(('float', t))
    for _ in range(20000 if deep else 2500):
        radix = rng.choice([10, 10, 2, 8, 16, 36, rng.randrange(2, 37)])
        digits = '0123456789abcdefghijklmnopqrstuvwxyz'[:radix]
        t = rng.choice(['', '', '-', '+']) + ''.join(rng.choice(digits) for _ in range(rng.choice([1, 2, 5, 9, 14, 25])))
        if rng.random() < 0.4:
            t = t.upper()
        if rng.random() < 0.5:
            i = rng.randrange(len(t) + 1)
            t = t[:i] + rng.choice(['.', 'e', 'g', 'x', '_', ' ', '-', '+', '9', 'z', '\xe9', '0x', '0b', '.0', ',', '\n']) + t[i + rng.choice([0, 1]):]
        res.append(('int', t, radix))
    return res


def corrupt(rng, rec):
    rec = copy.deepcopy(rec)
    if rec[0] == 'num':
        e = rng.choice(rec[2])
        k = rng.randrange(4)
        if k == 0:
            e[1] = ['z']
        elif k == 1 and rec[1][0] in ('n', 'f') and e[2] != ['z']:
            e[2] = ['x']
        elif k == 2 and rec[1][0] == 'n' and not any(c in e[0] for c in cps('.e')):
            e[0] += cps('.0')
        else:
            j = next((j for j, c in enumerate(e[0]) if 49 <= c <= 57), len(e[0]) - 1)
            e[0][j] = 49 + (e[0][j] - 48) % 9
        return rec
    rec[-1] = rng.choice([['x'], ['inf', 0], ['nan']])
    return rec


def check(rep):
    deep = core.TIER == 'thorough'
    core.require_model('MC_Number', 'MC_Number_deep.cfg' if deep else None)
    core.require_counterexample('MC_Number', 'MC_Number_cut.cfg')
    todo = cases()
    chunks = [todo[i:i + 100] for i in range(0, len(todo), 100)]
    records = []
    index = []
    for k, (status, val) in enumerate(core.pmap(observe, chunks, soft=20.0)):
        if status == 'ok':
            records += val
            index += range(100 * k, 100 * k + len(val))
        else:
            for j, (s1, v1) in enumerate(core.pmap(observe, [[c] for c in chunks[k]], soft=5.0)):
                if s1 == 'ok':
                    records += v1
                    index.append(100 * k + j)
                else:
                    rep.violation(f'no answer: {chunks[k][j]!r}'[:300], {'case': chunks[k][j]})
    for i in index:
        rep.count(todo[i][0])
    rng = rng_for(core.SEED, 'C13', 'canary')
    canaries = [(i, corrupt(rng, records[i])) for i in rng.sample(range(len(records)), 200)]
    verdicts = core.validate('Trace_Numbers', records + [c for _, c in canaries], weight=weight)
    for i, (clause, _), rec in zip(index, verdicts, records):
        if clause:
            rep.violation(f'{rec[0]} {clause}: {todo[i]!r}'[:400], {'clause': clause, 'case': [repr(x) for x in todo[i]],
                                                                   'observed': [[''.join(map(chr, t)), b, l] for t, b, l in rec[2]] if rec[0] == 'num' else rec[-1]})
    for (i, rec), (clause, _) in zip(canaries, verdicts[len(records):]):
        rep.canaries += 1
        if not clause:
            rep.canaries_missed.append((todo[index[i]], rec))
    rep.samples = [repr(todo[i]) for i in rng.sample(range(len(todo)), 8)]


def weight(rec):
    if rec[0] == 'num':
        return 40 + sum(len(t) ** 2 // 20 + 20 for t, _, _ in rec[2]) + (abs(rec[1][3]) // 10 if rec[1][0] == 'f' else 0)
    return 20 + len(rec[1]) ** 2 // 20
