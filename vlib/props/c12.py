"""C12 one number type: int and float spellings of a number are interchangeable"""
import copy
import datetime
import re

from .. import core, gen, machine, pools, runner
from ..gen import OPS, atom, binary, call, num, rng_for, s_expr, str_, unary, var
from ..runner import Host, Lib
from . import c05

# functions of the clock, of chance and of the outside
SKIP = {'datetimeNow', 'datetimeToday', 'mathRandom', 'systemFetch'}
EXPR_SKIP = {'now', 'today', 'rand'}
MODES = ['int', 'float', 'mix', 'mix']


def respell(v, mode, rng, memo=None):
    """v with its integral numbers (|n| < 1e15) held as int, as float, or each either way; shared containers stay shared"""
    memo = {} if memo is None else memo
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, (int, float)):
        if v != v or abs(v) >= 1e15 or v != int(v) or (v == 0 and str(v).startswith('-')):
            return v
        f = mode == 'float' or (mode == 'mix' and rng.random() < 0.5)
        return float(v) if f else int(v)
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, list):
        res = memo[id(v)] = []
        res.extend(respell(x, mode, rng, memo) for x in v)
        return res
    if isinstance(v, dict):
        res = memo[id(v)] = {}
        for k, x in v.items():
            res[k] = respell(x, mode, rng, memo)
        return res
    if isinstance(v, tuple):
        return tuple(respell(x, mode, rng, memo) for x in v)
    return v


# ---- arguments ------------------------------------------------------------------------------

def small(r):
    return r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, -1, 0.5])


def number(r):
    x = r.random()
    if x < 0.6:
        return r.choice([0, 1, 2, 3, 4, 5, 7, 10, 16, 36, 100, 255, -1, -2, -7])
    if x < 0.75:
        return r.choice([1000, 65, 97, 128512, 1114111, 2024, -10000, 10000, 86400000, 31536000000])
    if x < 0.9:
        return r.choice([10 ** 14 - 1, 10 ** 14, -(10 ** 14) + 3, 10 ** 15 - 1, -(10 ** 15) + 1, 999999999999999, 2 ** 31, 2 ** 32 + 1, 123456789012345])
    return r.choice([0.5, 1.5, -2.5, 0.1, 1e15, 1e16, 1e300, 2.0 ** 53])


def leaf(r):
    x = r.random()
    if x < 0.6:
        return number(r)
    return r.choice([None, True, False, '', 'a', 'b', '1', '10', datetime.datetime(2024, 2, 29, 12), 'x y'])


def value(r, depth=2):
    x = r.random()
    if depth <= 0 or x < 0.6:
        return leaf(r)
    if x < 0.8:
        return [value(r, depth - 1) for _ in range(r.choice([0, 1, 2, 3]))]
    return {k: value(r, depth - 1) for k in r.sample(['a', 'b', 'c', '1', ''], r.choice([0, 1, 2, 3]))}


def array(r):
    x = r.random()
    if x < 0.5:
        return [number(r) for _ in range(r.choice([0, 1, 2, 3, 4, 6]))]
    return [value(r, 1) for _ in range(r.choice([1, 2, 3, 4, 6]))]


def cell(r):
    return r.choice([0, 1, 1, 2, 2, 3, 10, None, 'x', 'y', 0.5, True, 10 ** 14 + 1, -1])


def table(r, clean=False):
    measure = (lambda: r.choice([0, 1, 2, 3, 10, 7, 0.5, None, 100000000000001])) if clean else lambda: cell(r)
    return [{'k': cell(r), 'm': measure(), 'n': r.choice([1, 2, 3])} for _ in range(r.choice([0, 1, 2, 3, 4, 6, 8]))]


TYPES_TEXT = ['typedef int(> 0, < 100) Small', 'struct S', '  Small a', '  optional float(>= 0) b', '  optional int[len > 0] c', '  optional int{} d', '  optional E e',
              '  optional string(len < 5) s', 'enum E', '  x', '  y', 'typedef float F', 'typedef int(== 3) Three', 'typedef int[len == 2] Pair', 'typedef object O']


def schema_value(r):
    t = r.choice(['Small', 'S', 'F', 'Three', 'Pair', 'O', 'E', 'Nope'])
    if t == 'S':
        v = {'a': r.choice([1, 5, 99, 100, 0, 'x', '7', 1.5])}
        for k, xs in (('b', [0, 1, 2.5, -1]), ('c', [[1, 2], [], [1.5], ['3']]), ('d', [{'q': 1}, {'q': 0.5}, {}]), ('e', ['x', 'z', 1]), ('s', ['abc', 'abcdef', 7])):
            if r.random() < 0.4:
                v[k] = r.choice(xs)
    else:
        v = r.choice([1, 3, 0, 99, 100, 2.5, [1, 2], [3, 4, 5], {'a': 1}, 'x', '3', 10 ** 14, None, True])
    return t, v


PATTERNS = ['a', '(a)(b)?', '(?<n>b)', '\\d+', '', 'x*']


def args_for(r, name):
    """an argument list of the right types, its numbers in and out of range"""
    d = datetime.datetime(2024, 2, 29, 12, 30, 5, 250000)
    if name == 'arrayNewSize':
        return [r.choice([0, 1, 3, 10, -1, 2.5]), value(r, 1)][:r.choice([0, 1, 2, 2])]
    if name == 'stringRepeat':
        return ['ab', r.choice([0, 1, 3, 10, -1, 2.5])]
    if name == 'stringFromCharCode':
        return [r.choice([65, 97, 0, 8364, 128512, 1114111, 1114112, -1, 65.5]) for _ in range(r.choice([0, 1, 2, 3]))]
    if name == 'datetimeNew':
        return [r.choice([2024, 1999, 100, 99, 9000]), r.choice([1, 2, 12, 0, -5, 30]), r.choice([1, 29, 31, 0, -40, 400, 10000])] + \
            [r.choice([0, 1, 59, 60, -1, 5000, -5000, 0.5]) for _ in range(r.choice([0, 0, 1, 2, 3, 4]))]
    if name == 'jsonStringify':
        return [value(r, 3), r.choice([1, 2, 4, 8, 0, -1, 1.5, None])][:r.choice([1, 2, 2])]
    if name == 'numberParseInt':
        return [r.choice(['10', 'ff', 'z', '-7', '0', '12x', '']), r.choice([2, 8, 10, 16, 36, 1, 37, 10.5])][:r.choice([1, 2, 2])]
    if name in ('numberToFixed', 'mathRound'):
        return [r.choice([number(r), 1.005, 2.5, -0.5, 1234.5678]), r.choice([0, 1, 2, 3, 10, -1, 0.5]), r.choice([True, False, 1, 0])][:r.choice([1, 2, 2, 3]) if name != 'mathRound' else
                                                                                                                                       r.choice([1, 2, 2])]
    if name == 'mathLog':
        return [r.choice([1, 2, 8, 10, 100, 1000, 0, -1, 0.5, 10 ** 14]), r.choice([2, 10, 1, 0, 0.5])][:r.choice([1, 2, 2])]
    if name == 'dataTop':
        return [table(r), r.choice([1, 2, 3, 10, 0, -1, 1.5]), r.choice([None, ['k'], ['k', 'n'], []])][:r.choice([2, 3])]
    if name == 'dataAggregate':
        fn = lambda: r.choice(['average', 'count', 'max', 'min', 'stddev', 'sum'])   # noqa
        return [table(r, r.random() < 0.85), {**({'categories': r.choice([['k'], ['n'], ['k', 'n']])} if r.random() < 0.8 else {}),
                                              'measures': [{'field': r.choice(['m', 'n']), 'function': fn(), 'name': f'x{i}'} for i in range(r.choice([1, 2, 3]))]}]
    if name == 'dataCalculatedField':
        return [table(r), 'c', r.choice(['n + 1', 'k * n', 'm', 'v + n', 'arrayNew(n)', 'len("abc") - n']), {'v': number(r)}][:r.choice([3, 4])]
    if name == 'dataFilter':
        return [table(r), r.choice(['n > 1', 'k == 1', 'm', 'v < n', 'k == v']), {'v': number(r)}][:r.choice([2, 3])]
    if name == 'dataJoin':
        return [table(r), table(r), r.choice(['k', 'n', 'n + 1']), r.choice([None, 'n', 'k']), r.choice([True, False]), {'v': 1}][:r.choice([3, 4, 5, 6])]
    if name == 'dataSort':
        return [table(r), r.choice([[['k']], [['n', True], ['m']], [['m', False], ['k', True]], [['k', 1]]])]
    if name == 'dataValidate':
        return [r.choice([table(r, True), [{'a': 1, 'd': d}, {'a': 2}], [{'a': 1}, {'a': 'x'}]]), r.choice([True, False])]
    if name == 'dataParseCSV':
        return r.choice([['a,b\n1,2\n3,4.5'], ['a', '1', '2'], ['a\n1,2', 5]])
    if name in ('schemaValidate', 'schemaValidateTypeModel', 'schemaParseEx', 'schemaParse', 'schemaTypeModel'):
        return None
    if name == 'objectNew':
        return [x for i in range(r.choice([0, 1, 2, 3])) for x in (r.choice(['a', 'b', '1']), value(r, 1))]
    if name == 'arraySort':
        return [array(r), r.choice([Lib('systemCompare'), Host('backward')])][:r.choice([1, 2])]
    if name in ('arrayIndexOf', 'arrayLastIndexOf') and r.random() < 0.35:
        return [array(r), r.choice([Lib('systemBoolean'), Host('positive')]), r.choice([0, 1, 2, 3, 9, 0.5])][:r.choice([2, 3, 3])]
    if name == 'systemIs':
        v = value(r, 1)
        return [v, v if r.random() < 0.5 else value(r, 1)]
    res = []
    for k in c05.KINDS[name]:
        if k == 'a':
            res.append(array(r))
        elif k == 'n':
            res.append(small(r) if name.startswith(('array', 'string')) else number(r))
        elif k == 'o':
            res.append({x: value(r, 1) for x in r.sample(['a', 'b', 'k', '1'], r.choice([0, 1, 2, 3]))})
        elif k == 's':
            res.append(r.choice(['', 'a', 'ab', 'abcabc', 'k', '1', '12', 'aab,b', ' x ']))
        elif k == 'd':
            res.append(d)
        elif k == 'r':
            res.append(re.compile(r.choice(['a', '(a)(b)?', '\\d+', ''])))
        elif k == 'f':
            res.append(Lib(r.choice(['mathMax', 'arrayNew', 'systemCompare', 'stringNew'])))
        elif k == 'b':
            res.append(r.choice([True, False, 0, 1]))
        else:
            res.append(value(r, 2))
    return res


def wrong(r, args):
    """missing, surplus and wrong-typed arguments"""
    args = list(args)
    x = r.random()
    if x < 0.75:
        return args
    if x < 0.85 and args:
        args[r.randrange(len(args))] = r.choice([value(r, 1), number(r)])
    elif x < 0.92 and args:
        args.pop()
    else:
        args.append(number(r))
    return args[:5] if len(args) < 7 else args


BIG_OK = {'arrayNewSize', 'stringRepeat'}


def call_cases(per):
    """several calls of one function; the arguments are globals (or literals), their state is compared after each call"""
    names = sorted(set(c05.KINDS) - SKIP)
    for name in names:
        for i in range(per):
            rng = rng_for(core.SEED, 'C12', name, i)
            glob = {'hlog': Host('hlog'), 'backward': Host('hlog')}
            stmts = [gen.s_func('backward', ['a', 'b'], [gen.s_return(unary('-', call('systemCompare', var('a'), var('b'))))])]
            del glob['backward']
            stmts.append(gen.s_func('positive', ['a'], [gen.s_return(binary('>', var('a'), num(1)))]))
            for k in range(4):
                args = args_for(rng, name)
                if args is None:
                    stmts += schema_stmts(rng, name, k, glob)
                    continue
                args = wrong(rng, args) if name not in BIG_OK else args
                exprs = []
                for j, a in enumerate(args):
                    if isinstance(a, Host):
                        exprs.append(var(a.name))
                    elif isinstance(a, (int, float)) and not isinstance(a, bool) and rng.random() < 0.5 and a >= 0:
                        exprs.append(num(a))
                    else:
                        glob[f'v{k}{j}'] = a
                        exprs.append(var(f'v{k}{j}'))
                c = call(name, *exprs)
                if name == 'systemPartial':
                    stmts.append(s_expr(c, f'p{k}'))
                    c = call(f'p{k}', num(number(rng)), num(1))
                stmts.append(s_expr(c, f'r{k}'))
                stmts.append(s_expr(call('hlog', var(f'r{k}'), *[e for e in exprs if 'variable' in e])))
            yield {'model': {'statements': stmts}, 'glob': glob, 'debug': True, 'exprs': EXPRS, 'unk': name in c05.UNK, 'names': ['x', 'k', 'm', 'n', 'v', 'c'],
                   'desc': '; '.join(gen.expr_text(next(iter(s.values()))['expr']) for s in stmts[2:]) + ' with ' + machine.safe_repr(glob)}


def schema_stmts(rng, name, k, glob):
    res = [s_expr(call('schemaParse', *[str_(x) for x in TYPES_TEXT]), 'types')]
    if name == 'schemaValidate':
        t, v = schema_value(rng)
        glob[f'v{k}'] = v
        res.append(s_expr(call(name, var('types'), str_(t), var(f'v{k}')), f'r{k}'))
    elif name == 'schemaValidateTypeModel':
        glob[f'v{k}'] = {'A': {'struct': {'name': 'A', 'members': [{'name': 'a', 'type': {'builtin': 'int'}, 'attr': {'gt': rng.choice([1, 2.5]), 'lenLT': rng.choice([3, 2])}}]}}} \
            if rng.random() < 0.5 else {'T': {'typedef': {'name': 'T', 'type': {'array': {'type': {'builtin': 'float'}, 'attr': {'lenGT': rng.choice([0, 1, 1.5])}}}}}}
        res.append(s_expr(call(name, var(f'v{k}')), f'r{k}'))
    elif name == 'schemaParseEx':
        res.append(s_expr(call(name, call('arrayNew', str_('typedef int(> 5) T' + str(k)), str_('struct Q'), str_('  T%d a' % k)), var('types'), str_('x')), f'r{k}'))
    elif name == 'schemaParse':
        res.append(s_expr(call(name, str_('typedef int(> 5) T'), num(number(rng))), f'r{k}'))
    else:
        res.append(s_expr(call(name, *([num(1)] if rng.random() < 0.3 else [])), f'r{k}'))
    res.append(s_expr(call('hlog', var(f'r{k}'), var(f'v{k}'))))
    res.append(s_expr(call('hlog', var('types'))) if k == 0 else s_expr(call('hlog', num(1))))
    return res


def _exprs():
    n, k, v, m = var('n'), var('k'), var('v'), var('m')
    return {'n + 1': binary('+', n, num(1.)), 'k * n': binary('*', k, n), 'm': m, 'v + n': binary('+', v, n), 'arrayNew(n)': call('arrayNew', n),
            'len("abc") - n': binary('-', call('len', str_('abc')), n), 'n > 1': binary('>', n, num(1.)), 'k == 1': binary('==', k, num(1.)), 'v < n': binary('<', v, n),
            'k == v': binary('==', k, v), 'k': k, 'n': n, '': None, 'a': var('a'), 'ab': var('ab'), 'abcabc': var('abcabc'), 'aab,b': None, '1': num(1.), '12': num(12.), ' x ': var('x')}


EXPRS = _exprs()


def operator_cases(rounds):
    """every operator on every pair of values with integral numbers"""
    for i in range(rounds):
        rng = rng_for(core.SEED, 'C12op', i)
        glob = {f'v{k}': value(rng, 2) if k > 3 else number(rng) for k in range(6)}
        glob['d'] = datetime.datetime(2024, 2, 29, 12)
        glob['s'] = 'q'
        glob['hlog'] = Host('hlog')
        stmts = []
        names = [f'v{k}' for k in range(6)] + ['d', 's']
        for k in range(10):
            x, y = var(rng.choice(names)), var(rng.choice(names)) if rng.random() < 0.7 else num(abs(number(rng)))
            op = rng.choice(OPS + ['&&', '||'])
            if op == '**':
                y = num(rng.choice([0, 1, 2, 3]))
            stmts.append(s_expr(binary(op, x, y), f'r{k}'))
            stmts.append(s_expr(binary('+', str_('t'), call('if', rng.choice([x, y]), var(f'r{k}'), unary(rng.choice('-!'), atom(x)))), f't{k}'))
        yield {'model': {'statements': stmts}, 'glob': glob, 'desc': '; '.join(gen.expr_text(next(iter(s.values()))['expr']) for s in stmts[:20]) + ' with ' + machine.safe_repr(glob)}


def expr_cases(n):
    """the built-in expression functions"""
    from .c03 import TARGET
    names = sorted(TARGET)
    for i in range(n):
        name = names[i % len(names)]
        rng = rng_for(core.SEED, 'C12e', i)
        args = wrong(rng, args_for(rng, TARGET[name])) if name != 'rept' else args_for(rng, 'stringRepeat')
        glob = {f'v{j}': a for j, a in enumerate(args)}
        e = call(name, *[var(f'v{j}') for j in range(len(args))])
        yield {'expr': e, 'glob': glob, 'debug': True, 'desc': gen.expr_text(e) + ' with ' + machine.safe_repr(glob)}


def program_cases(n):
    from .c03 import ExprGen
    from .c15 import History, ARRAY, OBJECT, STRING
    for i in range(n):
        rng = rng_for(core.SEED, 'C12p', i)
        x = i % 4
        if x == 0:
            g = gen.ProgGen(rng, max_depth=3, size=rng.choice([10, 20, 30]), features=('arrvar', 'blockfunc'))
            ast = g.program()
            yield {'text': gen.text_of(ast), 'ast': ast, 'glob': gen.base_globals(rng), 'real_lim': 100000, 'desc': gen.text_of(ast)}
        elif x == 1:
            g = ExprGen(rng)
            e = g.tree(rng.choice([2, 3, 4, 5]))
            yield {'expr': e, 'glob': g.globals(), 'inj': True, 'desc': gen.expr_text(e)}
        else:
            h = History(rng, [ARRAY, OBJECT, STRING] if x == 2 else [ARRAY])
            stmts, glob = h.program(rng.choice([8, 15, 25]))
            yield {'model': {'statements': stmts}, 'glob': glob, 'debug': True, 'desc': '; '.join(gen.render([s])[0] for s in stmts)}


def size_cases(n):
    """counts, sizes and indexes of long arrays and texts"""
    for i in range(n):
        rng = rng_for(core.SEED, 'C12z', i)
        size = rng.choice([255, 256, 257, 1000, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 70000])
        glob = {'n': size, 'hlog': Host('hlog'), 'a': None, 't': None}
        word = rng.choice(['a', 'ab', 'xyz', ''])

        def at(extra=(0, 1)):
            return rng.choice([var('n'), binary('-', var('n'), num(float(rng.choice([1, 2, 5])))), binary('/', var('n'), num(2.)), num(float(size + rng.choice(extra))), num(float(size // 2))])
        stmts = [gen.s_expr(call('arrayNewSize', *rng.choice([[var('n')], [num(float(size)), num(7.)], [var('n'), str_('q')]])), 'a'),
                 gen.s_expr(call('stringRepeat', str_(word), rng.choice([var('n'), num(float(size))])), 't')]
        for _ in range(rng.choice([3, 5, 8])):
            stmts.append(gen.s_expr(call('hlog', rng.choice([
                call('arrayLength', var('a')), call('stringLength', var('t')), call('arrayGet', var('a'), at()), call('stringCharCodeAt', var('t'), at()),
                call('arrayLength', call('arraySlice', var('a'), at())), call('arrayLength', call('arraySlice', var('a'), num(0.), at())),
                call('arraySet', var('a'), at(), str_('z')), call('arrayIndexOf', var('a'), str_('z'), at()), call('arrayLastIndexOf', var('a'), str_('z'), at()),
                call('stringLength', call('stringSlice', var('t'), at())), call('stringLength', call('stringSlice', var('t'), num(1.), at())),
                call('stringIndexOf', var('t'), str_('b'), at()), call('stringLastIndexOf', var('t'), str_('a'), at()), call('arrayPop', var('a')),
                call('stringLength', call('stringRepeat', str_('ab'), at())), call('arrayLength', call('arrayNewSize', at()))]))))
        stmts += [gen.s_expr(var('null'), 'a'), gen.s_expr(var('null'), 't')]
        yield {'model': {'statements': stmts}, 'glob': glob, 'debug': True, 'desc': '; '.join(gen.render([s])[0] for s in stmts)}


def spellings(case):
    """the case under every spelling, and the real code on each"""
    runs = []
    base = None
    for k, mode in enumerate(MODES):
        rng = rng_for(core.SEED, 'C12s', k, case.get('desc', ''))
        c = dict(case)
        memo = {}
        c['glob'] = {n: respell(v, mode, rng, memo) for n, v in case['glob'].items()}
        if case.get('locals'):
            c['locals'] = {n: respell(v, mode, rng, memo) for n, v in case['locals'].items()}
        if 'text' in case:
            # a model whose literals are spelled that way
            try:
                c['model'] = respell(runner.bs()['bare'].parse_script(case['text']), mode, rng)
            except Exception as exc:  # pylint: disable=broad-except
                return {'violation': f'generated program rejected: {exc}'}
        for key in ('model', 'expr'):
            if key in case:
                c[key] = respell(case[key], mode, rng)
        r = runner.run_case(c)
        if 'violation' in r:
            return r
        runs.append({'log': r['trace']['log'], 'out': r['trace']['out']})
        if k == 2:
            base = r
    base['runs'] = {'runs': runs}
    return base


def corrupt(rec, kind, rng):
    t = copy.deepcopy(rec)
    run = t['runs'][rng.randrange(1, len(t['runs']))]
    if kind == 'log':
        if not run['log']:
            return None
        run['log'].pop()
    elif kind == 'value':
        out = run['out']
        if out['k'] != 'ok' or not out['g']:
            return None
        g = out['g'][rng.randrange(len(out['g']))]
        g[1] = ['s', [63, 63]] if g[1][0] != 's' else ['n', 77]
    elif kind == 'text':
        # a number's text with a fraction
        for g in run['out']['g']:
            if g[1][0] == 's':
                g[1] = ['s', g[1][1] + [46, 48]]
                return t
        return None
    else:
        run['out']['k'] = 'err' if run['out']['k'] == 'ok' else 'ok'
    return t


def run(rep, cases, label, min_ok=0.3):
    cases = list(cases)
    results = core.pmap(spellings, cases, soft=10.0)
    recs, which, machines = [], [], []
    for i, (status, val) in enumerate(results):
        if status == 'skip':
            continue
        if status != 'ok' or 'violation' in val:
            rep.violation(f'{label}: {val["violation"] if status == "ok" else status + ": " + str(val)[-300:]}: {machine.describe(cases[i])}', {'case': machine.case_detail(cases[i])})
            continue
        recs.append(val['runs'])
        machines.append((val['trace'], val['count']))
        which.append(i)
    rng = rng_for(core.SEED, 'C12c', label)
    can = []
    tries = 0
    while recs and len(can) < 16 and tries < 200:
        tries += 1
        kind = ['log', 'value', 'text', 'kind'][tries % 4]
        t = corrupt(rng.choice(recs), kind, rng)
        if t is not None:
            can.append((kind, t))
    verdicts = core.validate('Trace_Spelling', recs + [t for _, t in can], weight=lambda r: 10 + len(r['runs'][0]['log']))
    for k, i in enumerate(which):
        if verdicts[k][0]:
            rep.violation(f'{label}: {verdicts[k][0]} ({", ".join(MODES)}): {machine.describe(cases[i])}',
                          {'case': machine.case_detail(cases[i]), 'clause': verdicts[k][0], 'runs': recs[k]})
    for k, (kind, _) in enumerate(can):
        rep.canaries += 1
        if not verdicts[len(recs) + k][0]:
            rep.canaries_missed.append((label, kind))
    # the mixed spelling against the machine, which has one number type
    mv = core.validate('Trace_Run', [t for t, _ in machines], weight=lambda t: 30 + 2 * len(t['log']))
    nopen = 0
    for k, i in enumerate(which):
        if mv[k][0]:
            rep.violation(f'{label}: {mv[k][0]}: {machine.describe(cases[i])}', {'case': machine.case_detail(cases[i]), 'clause': mv[k][0], 'extra': mv[k][1], 'trace': machines[k][0]})
        if mv[k][1].startswith('"open"'):
            nopen += 1
    rep.count('open_outcomes', nopen)
    rep.count('executions', len(cases) * len(MODES))
    for i in which[:1]:
        rep.samples.append(machine.describe(cases[i], 500))


def check(rep):
    quick = core.TIER == 'quick'
    core.require_model('MC_Spelling', None if quick else 'MC_Spelling_deep.cfg')
    core.require_counterexample('MC_Spelling', 'MC_Spelling_noindex.cfg')
    core.require_counterexample('MC_Spelling', 'MC_Spelling_notext.cfg')
    run(rep, call_cases(8 if quick else 100), 'library-call')
    run(rep, operator_cases(250 if quick else 4000), 'operators')
    run(rep, expr_cases(400 if quick else 6000), 'built-ins')
    run(rep, size_cases(24 if quick else 200), 'sizes')
    run(rep, program_cases(500 if quick else 6000), 'program')
