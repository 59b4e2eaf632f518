"""C05 runtime errors are contained: only documented exceptions escape"""
import datetime
import math
import re

from .. import core, gen, machine, pools
from ..gen import OPS, atom, binary, call, num, rng_for, s_expr, str_, unary, var
from ..runner import Host, Lib

# name -> a sensible argument list (kinds); every function of the library
KINDS = {
    'arrayCopy': 'a', 'arrayDelete': 'an', 'arrayExtend': 'aa', 'arrayGet': 'an', 'arrayIndexOf': 'a*n', 'arrayJoin': 'as',
    'arrayLastIndexOf': 'a*n', 'arrayLength': 'a', 'arrayNew': '***', 'arrayNewSize': 'n*', 'arrayPop': 'a', 'arrayPush': 'a**', 'arraySet': 'an*',
    'arrayShift': 'a', 'arraySlice': 'ann', 'arraySort': 'af', 'dataAggregate': 'to', 'dataCalculatedField': 'tseo', 'dataFilter': 'teo',
    'dataJoin': 'tteebo', 'dataParseCSV': 'ss', 'dataSort': 'ta', 'dataTop': 'tna', 'dataValidate': 'tb', 'datetimeDay': 'd', 'datetimeHour': 'd',
    'datetimeISOFormat': 'db', 'datetimeISOParse': 's', 'datetimeMillisecond': 'd', 'datetimeMinute': 'd', 'datetimeMonth': 'd',
    'datetimeNew': 'ynnnnnn', 'datetimeNow': '', 'datetimeSecond': 'd', 'datetimeToday': '', 'datetimeYear': 'd', 'jsonParse': 's',
    'jsonStringify': '*n', 'mathAbs': 'n', 'mathAcos': 'n', 'mathAsin': 'n', 'mathAtan': 'n', 'mathAtan2': 'nn', 'mathCeil': 'n', 'mathCos': 'n',
    'mathFloor': 'n', 'mathLn': 'n', 'mathLog': 'nn', 'mathMax': '**', 'mathMin': '**', 'mathPi': '', 'mathRandom': '', 'mathRound': 'nn',
    'mathSign': 'n', 'mathSin': 'n', 'mathSqrt': 'n', 'mathTan': 'n', 'numberParseFloat': 's', 'numberParseInt': 'sn', 'numberToFixed': 'nnb',
    'objectAssign': 'oo', 'objectCopy': 'o', 'objectDelete': 'os', 'objectGet': 'os*', 'objectHas': 'os', 'objectKeys': 'o', 'objectNew': 's*s*',
    'objectSet': 'os*', 'regexEscape': 's', 'regexMatch': 'rs', 'regexMatchAll': 'rs', 'regexNew': 'ss', 'regexReplace': 'rss', 'regexSplit': 'rs',
    'schemaParse': 's', 'schemaParseEx': 'sos', 'schemaTypeModel': '', 'schemaValidate': 'os*', 'schemaValidateTypeModel': 'o',
    'stringCharCodeAt': 'sn', 'stringEndsWith': 'ss', 'stringFromCharCode': 'nn', 'stringIndexOf': 'ssn', 'stringLastIndexOf': 'ssn',
    'stringLength': 's', 'stringLower': 's', 'stringNew': '*', 'stringRepeat': 'sn', 'stringReplace': 'sss', 'stringSlice': 'snn',
    'stringSplit': 'ss', 'stringStartsWith': 'ss', 'stringTrim': 's', 'stringUpper': 's', 'systemBoolean': '*', 'systemCompare': '**',
    'systemFetch': 's', 'systemGlobalGet': 's*', 'systemGlobalSet': 's*', 'systemIs': '**', 'systemLog': '*', 'systemLogDebug': '*',
    'systemPartial': 'f**', 'systemType': '*', 'urlEncode': 's', 'urlEncodeComponent': 's',
}
UNK = {'datetimeNow', 'datetimeToday', 'mathRandom', 'regexEscape', 'regexMatch', 'regexMatchAll', 'regexNew', 'regexReplace', 'regexSplit',
       'schemaParse', 'schemaParseEx', 'schemaTypeModel', 'schemaValidate', 'schemaValidateTypeModel', 'urlEncode', 'urlEncodeComponent', 'systemFetch'}

NAMES = {
    'a': ['a0', 'a1', 'a2', 'a3'], 'o': ['o0', 'o1', 'o2'], 's': ['s0', 's1', 's2', 's3', 's4'], 'n': ['n0', 'n1', 'n2', 'n3', 'n4', 'n5'],
    'd': ['d0', 'd1'], 'f': ['f0', 'f1', 'f2', 'f3'], 'r': ['r0'], 'b': ['b0', 'z0'], 't': ['t0', 'a0', 't1'], 'e': ['e0', 'e1', 'e2', 'e3'],
    'y': ['y0', 'n4', 'y1'],
}
EXPRS = {'x': var('x'), 'x + 1': binary('+', var('x'), num(1.)), 'hfail(x)': call('hfail', var('x')), 'x +': None, '1 / x': binary('/', num(1.), var('x')),
         'nofunc(x)': call('nofunc', var('x'))}


def base(rng):
    return {'hlog': Host('hlog'), 'hfail': Host('hfail'), 'hfail7': Host('hfail7'),
            'a0': [], 'a1': [1, 2.0, 'x'], 'a2': ['b', 'a'], 'a3': [['x', True], ['y']], 'o0': {}, 'o1': {'x': 1, 'k': [2]},
            'o2': {'categories': ['x'], 'measures': [{'field': 'y', 'function': 'sum'}]},
            's0': '', 's1': 'abc', 's2': pools.pick(rng, ['[', '(?<n>a', '2024-02-30', '{"a":1', 'x,y\n1,"2', '\ud800', 'i', '9' * 400]),
            's3': pools.pick(rng, ['x', '12', '1e999', 'null', '2024-02-28T25:00:00Z', '[1,2]', 'a+', 'struct A\n  int b\n']), 's4': 'x',
            'n0': 0, 'n1': 1.0, 'n2': -1, 'n3': 0.5, 'n4': pools.pick(rng, [1e300, -1e300, 2.0 ** 53, 1e10, 10000.0, 5e-324]), 'n5': 3,
            'd0': datetime.datetime(2024, 2, 29, 12, 30), 'd1': pools.pick(rng, pools.datetimes() + [datetime.datetime(9999, 12, 31, 23, 59, 59, 999000),
                                                                                                     datetime.datetime(1, 1, 1)]),
            'f0': Host('hlog'), 'f1': Host('hfail'), 'f2': Lib('mathAbs'), 'f3': Lib('systemCompare'), 'r0': re.compile('a(b)?'), 'b0': True, 'z0': None,
            't0': [{'x': 1, 'y': 2}, {'x': 'q'}, {'y': None}], 't1': [{'x': 0}, 5, None], 'e0': 'x', 'e1': 'hfail(x)',
            'e2': pools.pick(rng, ['x + 1', '1 / x', 'nofunc(x)']), 'e3': 'x +', 'y0': 2024, 'y1': 9999}


HUNGRY = {'arrayNewSize', 'stringRepeat'}
POOL = sorted({n for ns in NAMES.values() for n in ns})


def lib_calls(rng, name, count):
    """argument lists of one function: its own types, one argument wrong, missing and surplus arguments, anything"""
    kinds = KINDS[name]
    # a size that exhausts the memory is no subject of the property
    pool = [n for n in POOL if n != 'n4'] if name in HUNGRY else POOL

    def good(k):
        return rng.choice([n for n in NAMES[k] if n in pool]) if k != '*' else rng.choice(pool)
    res = []
    for i in range(count):
        r = rng.random()
        args = [good(k) for k in kinds]
        if r < 0.3:
            if args and rng.random() < 0.5:
                args = args[:rng.randrange(1, len(args) + 1)]
        elif r < 0.7 and args:
            args[rng.randrange(len(args))] = rng.choice(pool)
        elif r < 0.8:
            args = args[:rng.randrange(0, len(args) + 1)]
        elif r < 0.87:
            args.append(rng.choice(pool))
        else:
            args = [rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
        res.append(call(name, *[var(a) for a in args]))
    return res


def lib_cases(per, chunk):
    names = sorted(KINDS)
    for name in names:
        rng = rng_for(core.SEED, 'C05lib', name)
        if name in UNK:
            for c in lib_calls(rng, name, per // 2):
                yield one(rng, [c], True)
    mixed = []
    for name in names:
        if name not in UNK:
            rng = rng_for(core.SEED, 'C05lib', name)
            mixed += lib_calls(rng, name, per)
    rng = rng_for(core.SEED, 'C05mix')
    rng.shuffle(mixed)
    for i in range(0, len(mixed), chunk):
        yield one(rng, mixed[i:i + chunk], False)


def one(rng, calls, unk):
    stmts = []
    for i, c in enumerate(calls):
        stmts.append(s_expr(c, f'q{i}'))
        stmts.append(s_expr(call('hlog', var(f'q{i}'))))
    stmts.append(s_expr(call('systemLog', str_('end'))))
    return {'model': {'statements': stmts}, 'glob': base(rng), 'debug': rng.random() < 0.8, 'log': rng.random() < 0.95, 'unk': unk, 'exprs': EXPRS,
            'desc': '; '.join(gen.expr_text(c) for c in calls), 'names': ['x', 'y'],
            'files': {'f.txt': 'text'}, 'fetch': rng.random() < 0.5}


def exhaustive_cases(chunk):
    """every library function on every pair of small values"""
    values = pools.small()
    n = len(values)
    names = [f'v{i}' for i in range(n)]
    rng = rng_for(core.SEED, 'C05pairs')
    calls = []
    for name in sorted(KINDS):
        if name in UNK:
            continue
        combos = [[]] + [[x] for x in names] + [[x, y] for x in names for y in names]
        if core.TIER == 'quick':
            combos = combos[:n + 1] + rng.sample(combos[n + 1:], 24)
        calls += [call(name, *[var(x) for x in c]) for c in combos if name not in HUNGRY or 'v8' not in c]
    rng.shuffle(calls)
    for i in range(0, len(calls), chunk):
        some = calls[i:i + chunk]
        glob = dict(zip(names, pools.small()))
        glob['hlog'] = Host('hlog')
        stmts = [s_expr(call('hlog', c)) for c in some]
        yield {'model': {'statements': stmts}, 'glob': glob, 'debug': True, 'exprs': {'a': var('a'), '': None, 'ab': var('ab'), '12': num(12.)},
               'desc': '; '.join(gen.expr_text(c) for c in some)}


def extreme_values():
    cyc = [1]
    cyc.append(cyc)
    obj = {}
    obj['o'] = obj
    return [10 ** 400, -10 ** 400, 10 ** 5000, math.nan, math.inf, -math.inf, cyc, obj, {1: 2}, {1: 1, 'a': 2}, {None: 1, 'b': [], (1, 2): 3}, {'s': {1, 2}}, b'bytes', {1, 2}, object(), 1j, (1, 2), [math.nan],
            {'a': math.inf}, datetime.datetime(1, 1, 1, tzinfo=datetime.timezone(datetime.timedelta(hours=14))), datetime.datetime.max, datetime.date.min,
            datetime.timedelta(1), datetime.time(1), '\ud800', 'a' * 5000, [[]] * 3, range(3), Exception('x'), re.compile(b'x'), 2 ** 63, True]


def extreme_cases(n):
    """operators and functions on values a host application may put into the globals: judged by the kind of outcome only"""
    names = sorted(set(KINDS) - HUNGRY)
    for i in range(n):
        rng = rng_for(core.SEED, 'C05x', i)
        vs = [rng.choice(extreme_values()) for _ in range(3)] + [pools.pick(rng, pools.small()) for _ in range(2)]
        glob = {f'v{k}': v for k, v in enumerate(vs)}
        glob['hlog'] = Host('hlog')
        stmts = []
        for k in range(8):
            v = [var(f'v{rng.randrange(5)}') for _ in range(4)]
            r = rng.random()
            if r < 0.5:
                e = binary(rng.choice(OPS), v[0], v[1])
            elif r < 0.6:
                e = unary(rng.choice('!-'), v[0])
            else:
                e = call(rng.choice(names), *v[:rng.randrange(1, 4)])
            stmts.append(s_expr(e, f'w{k}'))
        stmts.append({'jump': {'label': 'end', 'expr': v[0]}})
        stmts.append({'label': 'end'})
        case = {'model': {'statements': stmts}, 'glob': glob, 'debug': rng.random() < 0.5, 'loose': True, 'globs': False}
        if rng.random() < 0.4:
            e = stmts[0]['expr']['expr']
            for s in stmts[1:6]:
                e = binary(rng.choice(OPS), atom(e), atom(s['expr']['expr']))
            del case['model']
            case['expr'] = e
            case['inj'] = rng.random() < 0.7
            if rng.random() < 0.2:
                case['locals'] = {'v0': glob['v1'], 'v2': None}
        yield case


def expr_cases(n):
    """evaluate_expression without options, without globals"""
    from .c03 import ExprGen
    for i in range(n):
        rng = rng_for(core.SEED, 'C05e', i)
        g = ExprGen(rng)
        e = g.tree(rng.choice([1, 2, 3]))
        yield {'expr': e, 'glob': {}, 'nooptions': True, 'log': False, 'globs': False,
               'locals': None if rng.random() < 0.4 else {k: v for k, v in g.globals().items() if rng.random() < 0.8}, 'builtins': rng.random() < 0.8}


class FaultGen(gen.ProgGen):
    """structured programs in which calls and operations fail everywhere"""

    def libcall(self, depth, names):
        e = lambda: self.expr(depth - 1, names)   # noqa
        r = self.rng.random()
        if r < 0.25:
            return call(self.pick(['hfail', 'hfail7']), e())
        if r < 0.6:
            name = self.pick(['arrayGet', 'arrayLength', 'arraySlice', 'objectGet', 'objectKeys', 'stringLength', 'mathAbs', 'mathSqrt', 'arrayPop',
                              'numberToFixed', 'stringSplit', 'arrayIndexOf', 'objectNew', 'mathRound', 'datetimeNew', 'stringRepeat'])
            return call(name, *[e() for _ in range(self.pick([0, 1, 2, 2, 3]))])
        if r < 0.7:
            return binary(self.pick(['/', '%', '**']), atom(e()), self.pick([num(0.), num(0.5), num(1000.)]))
        return super().libcall(depth, names)


def program_cases(n):
    for i in range(n):
        rng = rng_for(core.SEED, 'C05p', i)
        g = FaultGen(rng, max_depth=rng.choice([2, 3]), size=rng.choice([8, 14, 24]))
        ast = g.program()
        glob = gen.base_globals(rng)
        glob.update(hfail=Host('hfail'), hfail7=Host('hfail7'))
        if rng.random() < 0.2:
            glob['hfail'] = Host('hrt')
        yield {'text': gen.text_of(ast), 'ast': ast, 'glob': glob, 'real_lim': 100000, 'debug': rng.random() < 0.6}


DEEP = ['function f(x):\n return f(x + 1)\nendfunction\nf(1)\n',
        'function f(x):\n return 1 + f(x)\nendfunction\na = f(1)\nhlog(a)\n',
        'function f(x):\n arrayIndexOf(arrayNew(1), f)\nendfunction\nf(1)\nhlog(2)\n',
        'function f(a, b):\n return arraySort(arrayNew(1, 2), f)\nendfunction\nf(1)\n',
        'function f(x):\n return dataFilter(arrayNew(objectNew("a", 1)), "f(a)")\nendfunction\nf(1)\n',
        'a = arrayNew()\narrayPush(a, a)\nhlog(jsonStringify(a))\nhlog(a == a)\nsystemLog("" + a)\n',
        'a = arrayNew()\nwhile true:\n a = arrayNew(a)\nendwhile\n',
        'a = arrayNew()\ni = 0\nwhile i < 3000:\n a = arrayNew(a)\n i = i + 1\nendwhile\nhlog(1)\nb = jsonStringify(a)\nc = "" + a\nd = a == arrayCopy(a)\nhlog(2)\n',
        'a = objectNew()\nobjectSet(a, "a", a)\nb = objectNew()\nobjectSet(b, "a", b)\nc = a == b\nd = systemCompare(a, b)\nhlog(3)\n',
        'function g():\n h = systemGlobalGet("g")\n return h()\nendfunction\ng()\n',
        'function f(x):\n h = systemPartial(f, x)\n return h()\nendfunction\nf(1)\n',
        'h = systemPartial(mathAbs, 1)\ni = 0\nwhile i < 5000:\n h = systemPartial(h, 1)\n i = i + 1\nendwhile\nh()\n',
        'function f():\n return g()\nendfunction\nfunction g():\n return f()\nendfunction\nx = f()\n']


def deep_cases():
    for text in DEEP:
        for lim in (0, 500):
            for debug in (False, True):
                if 'while true' in text and lim == 0:
                    continue
                try:
                    yield {'text': text, 'glob': {'hlog': Host('hlog')}, 'lim': lim, 'real_lim': lim, 'debug': debug, 'loose': True, 'globs': False}
                except Exception:   # pylint: disable=broad-except
                    pass


def check(rep):
    quick = core.TIER == 'quick'
    machine.run_and_validate(rep, list(lib_cases(60 if quick else 400, 8)), 'library-call', min_ok=0.4)
    machine.run_and_validate(rep, list(exhaustive_cases(10)), 'argument-pairs', min_ok=0.4)
    machine.run_and_validate(rep, list(extreme_cases(1500 if quick else 20000)), 'extreme', min_ok=0, canaries=0)
    machine.run_and_validate(rep, list(expr_cases(500 if quick else 5000)), 'no-options', min_ok=0.5, kinds=['result', 'exc'])
    machine.run_and_validate(rep, list(program_cases(700 if quick else 6000)), 'faulty-program', min_ok=0.5)
    machine.run_and_validate(rep, list(deep_cases()), 'deep', min_ok=0, canaries=0, soft=20.0)
