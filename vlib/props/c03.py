"""C03 expression evaluation follows the typed operator semantics"""
from .. import core, gen, machine, pools, runner
from ..enc import Enc
from ..gen import OPS, atom, binary, call, group, num, rng_for, str_, unary, var
from ..runner import Host, Lib

ALIASES = ['abs', 'acos', 'asin', 'atan', 'atan2', 'ceil', 'charCodeAt', 'cos', 'date', 'day', 'endsWith', 'indexOf', 'fixed', 'floor',
           'fromCharCode', 'hour', 'lastIndexOf', 'len', 'lower', 'ln', 'log', 'max', 'min', 'millisecond', 'minute', 'month', 'parseInt',
           'parseFloat', 'pi', 'replace', 'rept', 'round', 'second', 'sign', 'sin', 'slice', 'sqrt', 'startsWith', 'text', 'tan', 'trim', 'upper',
           'year']
DETERMINISTIC = set(ALIASES)
TARGET = {'abs': 'mathAbs', 'acos': 'mathAcos', 'asin': 'mathAsin', 'atan': 'mathAtan', 'atan2': 'mathAtan2', 'ceil': 'mathCeil',
          'charCodeAt': 'stringCharCodeAt', 'cos': 'mathCos', 'date': 'datetimeNew', 'day': 'datetimeDay', 'endsWith': 'stringEndsWith',
          'indexOf': 'stringIndexOf', 'fixed': 'numberToFixed', 'floor': 'mathFloor', 'fromCharCode': 'stringFromCharCode',
          'hour': 'datetimeHour', 'lastIndexOf': 'stringLastIndexOf', 'len': 'stringLength', 'lower': 'stringLower', 'ln': 'mathLn',
          'log': 'mathLog', 'max': 'mathMax', 'min': 'mathMin', 'millisecond': 'datetimeMillisecond', 'minute': 'datetimeMinute',
          'month': 'datetimeMonth', 'parseInt': 'numberParseInt', 'parseFloat': 'numberParseFloat', 'pi': 'mathPi',
          'replace': 'stringReplace', 'rept': 'stringRepeat', 'round': 'mathRound', 'second': 'datetimeSecond', 'sign': 'mathSign',
          'sin': 'mathSin', 'slice': 'stringSlice', 'sqrt': 'mathSqrt', 'startsWith': 'stringStartsWith', 'text': 'stringNew', 'tan': 'mathTan',
          'trim': 'stringTrim', 'upper': 'stringUpper', 'year': 'datetimeYear'}


def table_cases(thin):
    """every operator on every pair of values"""
    values = pools.all_values()
    n = len(values)
    for i in range(n):
        for j in range(n):
            if thin and (i * 31 + j * 7 + core.SEED) % 3 and not (i % 4 == 0 and j % 4 == 0):
                continue
            fresh = pools.all_values()
            x, y = fresh[i], fresh[j]
            if i == j:
                y = pools.all_values()[j] if (i + core.SEED) % 2 else x
            stmts = [gen.s_expr(binary(op, var('x'), var('y')), f'r{k}') for k, op in enumerate(OPS)]
            if i == j:
                stmts += [gen.s_expr(unary(op, var('x')), f'u{k}') for k, op in enumerate('!-')]
            yield {'model': {'statements': stmts}, 'glob': {'x': x, 'y': y}, 'desc': f'all operators on {x!r} and {y!r}'}


class ExprGen(gen.ProgGen):
    """random expression trees with probes as operands"""

    def __init__(self, rng):
        super().__init__(rng)
        self.names = ['n0', 'n1', 'n2', 's0', 's1', 'b0', 'z0', 'd0', 'd1', 'a0', 'a1', 'o0', 'f0', 'x0', 'missing']
        self.calls = []

    def globals(self):
        r = self.rng
        return {'n0': pools.pick(r, pools.numbers()), 'n1': pools.pick(r, pools.numbers()), 'n2': 3, 's0': pools.pick(r, pools.strings()), 's1': 'ab',
                'b0': True, 'z0': None, 'd0': pools.pick(r, pools.datetimes()), 'd1': pools.pick(r, pools.datetimes()),
                'a0': pools.pick(r, pools.arrays()), 'a1': [3, 1], 'o0': pools.pick(r, pools.objects()), 'f0': Lib('mathAbs'),
                'x0': pools.pick(r, pools.others()), 'hlog': Host('hlog'), 'hfail': Host('hfail'), 'hfail7': Host('hfail7'),
                **({r.choice(['null', 'true', 'false']): r.choice([7, 'text', False, True, None, Lib('mathAbs')])} if r.random() < 0.15 else {})}

    def tree(self, depth):
        r = self.rng.random()
        if depth <= 0 or r < 0.12:
            e = self.literal() if self.chance(0.35) else var(self.pick(self.names))
            return call('hlog', e) if self.chance(0.3) else e
        if r < 0.6:
            op = self.pick(OPS + ['&&', '||', '&&', '||', '+', '-'])
            if op == '**':
                return binary(op, atom(self.tree(0)), atom(self.pick([num(2.), num(0.5), num(3.), num(0.), unary('-', num(1.)), var('s0')])))
            return binary(op, atom(self.tree(depth - 1)), atom(self.tree(depth - 1)))
        if r < 0.7:
            return unary(self.pick('!-'), atom(self.tree(depth - 1)))
        if r < 0.82:
            return call('if', *[self.tree(depth - 1) for _ in range(self.pick([0, 1, 2, 3, 3, 3, 3, 4]))])
        if r < 0.88:
            return call('hlog', *[self.tree(depth - 1) for _ in range(self.pick([1, 2, 3]))])
        if r < 0.91:
            return call(self.pick(['hfail', 'hfail7']), self.tree(depth - 1))
        name = self.pick(['len', 'text', 'max', 'min', 'abs', 'upper', 'slice', 'round', 'sign', 'indexOf', 'rept', 'year', 'day', 'floor'])
        return call(name, *[self.tree(depth - 1) for _ in range(self.pick([1, 1, 2, 2, 3]))])


def tree_cases(n):
    for i in range(n):
        rng = rng_for(core.SEED, 'C03', i)
        g = ExprGen(rng)
        e = g.tree(rng.choice([2, 3, 4, 5, 6]))
        glob = g.globals()
        case = {'expr': e, 'glob': glob, 'debug': rng.random() < 0.3, 'inj': rng.random() < 0.4}
        if rng.random() < 0.4:
            case['locals'] = {k: pools.pick(rng, pools.small()) for k in rng.sample(g.names + ['len', 'abs'], 4)}
        if rng.random() < 0.3:
            del case['expr']
            case['exprtext'] = gen.expr_text(e)
            case['ast'] = e
        yield case


class EffectGen(gen.ProgGen):
    """expressions whose operands and arguments change what their neighbours read"""

    def change(self):
        r = self.rng.random()
        if r < 0.55:
            return call('systemGlobalSet', str_(self.pick(['v0', 'v1', 'v2', 'len', 'max', 'upper0', 'upper0'])),
                        self.pick([num(7.), str_('z'), var('null'), var('true'), var('a0'), var('v1'), var('upper0'), var('upper1'), var('upper1')]))
        if r < 0.75:
            return call(self.pick(['arrayPop', 'arrayShift', 'arrayLength']), self.pick([var('a0'), var('a1')]))
        if r < 0.9:
            return call('arrayPush', self.pick([var('a0'), var('a1')]), self.pick([num(5.), var('v0'), str_('p')]))
        return call('objectSet', var('o0'), str_(self.pick('ab')), self.pick([num(5.), var('v0')]))

    def leaf(self):
        return self.pick([var('v0'), var('v0'), var('v1'), var('v2'), var('a0'), var('a1'), var('o0'), num(2.), str_('s'), call('arrayLength', var('a0')),
                          call('len', var('v1')), call('max', var('v0'), num(3.)), group(var('v0')), unary('!', var('v2')), unary('-', var('v0')),
                          call('arrayGet', var('a0'), num(0.)), call('objectGet', var('o0'), str_('a'))])

    def tree(self, depth):
        if depth <= 0 or self.chance(0.15):
            return self.change() if self.chance(0.4) else self.leaf()
        r = self.rng.random()
        if r < 0.6:
            return binary(self.pick(OPS + ['&&', '||', '+', '+', '-', '==', '<']), atom(self.tree(depth - 1)), atom(self.tree(depth - 1)))
        if r < 0.7:
            return unary(self.pick('!-'), atom(self.tree(depth - 1)))
        if r < 0.82:
            return call('if', *[self.tree(depth - 1) for _ in range(self.pick([2, 3, 3, 3]))])
        return call(self.pick(['hlog', 'hlog', 'max', 'arrayNew', 'text', 'min', 'objectNew', 'stringNew', 'upper0', 'upper0', 'upper1']), *[self.tree(depth - 1) for _ in range(self.pick([1, 2, 2, 3, 4]))])


def effect_cases(n):
    for i in range(n):
        rng = rng_for(core.SEED, 'C03e', i)
        g = EffectGen(rng)
        e = g.tree(rng.choice([1, 2, 2, 3, 4]))
        glob = {'v0': rng.choice([1, 2.5, 'q', 0, None]), 'v1': rng.choice(['ab', 3, True]), 'v2': rng.choice([None, 1, '']), 'a0': [1, 'x', 3], 'a1': [2],
                'o0': {'a': 1}, 'hlog': Host('hlog'), 'upper0': rng.choice([Lib('mathMax'), Host('hlog'), Lib('stringNew')]),
                'upper1': rng.choice([Lib('mathMin'), Lib('arrayNew'), Host('hlog')])}
        if rng.random() < 0.2:
            glob['a1'] = glob['a0']
        case = {'glob': glob, 'debug': rng.random() < 0.3}
        if rng.random() < 0.35:
            yield {**case, 'model': {'statements': [gen.s_expr(e, rng.choice(['v0', 'v1', None, 'r'])), gen.s_expr(call('hlog', var('v0'), var('v1'), var('v2')))]}}
            continue
        case['expr'] = e
        case['inj'] = True
        case['names'] = ['len', 'max']
        if rng.random() < 0.3:
            case['locals'] = {'v0': rng.choice([4, 'loc', None]), 'a0': [9, 8]}
        yield case


def alias_cases(rounds):
    """the built-in names against the library functions they alias"""
    for name in ALIASES:
        for i in range(rounds):
            rng = rng_for(core.SEED, 'C03a', name, i)
            typed = {
                'n': [num(float(x)) for x in (0, 1, 2, 3, 5)] + [num(0.5), num(2.25), unary('-', num(1.5)), num(10.)],
                's': [str_(x) for x in ('', 'a', 'abcabc', ' x ', 'ABC', '12', '1.5', 'bc')],
                'd': [var('d0'), var('d1')],
            }
            anyv = typed['n'] + typed['s'] + typed['d'] + [var('null'), var('true'), var('a0'), var('o0')]
            target = TARGET[name]
            if rng.random() < 0.65:
                kinds = {'string': 'ssn', 'datetime': 'd', 'math': 'nn', 'number': 'ns'}
                if name == 'date':
                    args = [num(float(rng.choice([1999, 2024]))), num(float(rng.randrange(-3, 15))), num(float(rng.randrange(-5, 40)))] + \
                        [num(float(rng.randrange(-5, 70))) for _ in range(rng.randrange(5))]
                elif target.startswith('number'):
                    args = [rng.choice(typed['s'] if 'Parse' in target else typed['n'])] + [num(float(rng.choice([2, 3, 10, 16])))] * rng.randrange(2)
                    if name == 'fixed' and rng.random() < 0.4:
                        args = args[:1] + [num(float(rng.randrange(4))), var('true')]
                elif name in ('charCodeAt', 'rept'):
                    args = [rng.choice(typed['s']), num(float(rng.randrange(4)))]
                elif name == 'slice':
                    args = [rng.choice(typed['s'])] + [num(float(rng.randrange(4))) for _ in range(rng.randrange(1, 3))]
                elif name in ('len', 'lower', 'trim', 'upper'):
                    args = [rng.choice(typed['s'])]
                elif name == 'text':
                    args = [rng.choice(anyv)]
                elif name == 'fromCharCode':
                    args = [num(float(rng.choice([65, 97, 8364, 128512]))) for _ in range(rng.randrange(4))]
                elif name == 'replace':
                    args = [rng.choice(typed['s']) for _ in range(3)]
                elif name in ('indexOf', 'lastIndexOf'):
                    args = [str_('abcabc'), rng.choice(typed['s'])] + [num(float(rng.randrange(7)))] * rng.randrange(2)
                elif name in ('endsWith', 'startsWith'):
                    args = [str_('abcabc'), rng.choice([str_('abc'), str_('bc'), str_('ab'), str_(''), str_('c')])]
                elif target.startswith('datetime'):
                    args = [rng.choice(typed['d'])]
                else:
                    k = {'atan2': 2, 'log': 2, 'round': 2, 'max': 3, 'min': 3, 'pi': 0}.get(name, 1)
                    args = [rng.choice(typed['n']) for _ in range(k)]
                    if name in ('log', 'round') and rng.random() < 0.5:
                        args = args[:1]
                    del kinds
            else:
                args = [rng.choice(anyv) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
            glob = {'d0': pools.pick(rng, pools.datetimes()), 'd1': pools.pick(rng, pools.datetimes()), 'a0': [1, 'x'], 'o0': {'a': 1}, 'hlog': Host('hlog')}
            # both names are called; the value of the alias is the value of the library function
            yield {'expr': call('hlog', call(name, *args), call(target, *args), binary('==', call(name, *args), call(target, *args))),
                   'glob': glob, 'inj': True, 'debug': rng.random() < 0.5}


def clock_cases(rounds):
    """the built-in names whose values depend on the clock and on chance: the specification bounds them"""
    for name in ('now', 'today', 'rand', 'datetimeNow', 'datetimeToday', 'mathRandom'):
        for i in range(rounds):
            rng = rng_for(core.SEED, 'C03k', name, i)
            args = [rng.choice([num(1.), str_('a'), var('null'), call('hlog', num(2.))]) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
            e = call(name, *args)
            e = rng.choice([e, call('hlog', e), call('hlog', e, call(name)), call('if', var('true'), e), group(e), call('hlog', call('rand'), call('now'), call('today'))])
            glob = {'hlog': Host('hlog')}
            if rng.random() < 0.1:
                glob[name] = Host('hlog')
            case = {'glob': glob, 'unk': True, 'debug': rng.random() < 0.5}
            if name.startswith(('datetime', 'math')) and rng.random() < 0.5:
                yield {**case, 'model': {'statements': [gen.s_expr(e, 'x'), gen.s_return(var('x'))]}}
            else:
                yield {**case, 'expr': e, 'inj': True}


TEMPLATES = {
    'group': group, 'not': lambda e: unary('!', e), 'minus': lambda e: unary('-', e), 'add-left': lambda e: binary('+', e, num(1.)),
    'add-right': lambda e: binary('+', num(1.), e), 'text': lambda e: binary('+', e, str_('a')), 'compare': lambda e: binary('<', e, num(1.)),
    'if-true': lambda e: call('if', var('true'), e, str_('no')), 'if-false': lambda e: call('if', var('false'), str_('no'), e),
    'call': lambda e: call('ident', e), 'and': lambda e: binary('&&', var('true'), e), 'or': lambda e: binary('||', var('null'), e),
    'both': lambda e: unary('!', group(binary('+', num(1.), e)))}
LEAVES = {'n': (num(5.), ['n', 5]), 's': (str_('xy'), ['s', [120, 121]]), 'z': (var('null'), ['z']), 'b': (var('true'), ['b', True])}


def deep_expr_cases(quick):
    for t in TEMPLATES:
        for n in (1, 2, 3, 10, 60, 250, 400, 700, 900, 1000, 1500, 3000) + (() if quick else (61, 100, 450, 480, 490, 495, 500, 505, 600, 990, 995, 1005, 9000)):
            for leaf in LEAVES:
                for script in (False, True) if n < 200 or leaf in 'ns' else ():
                    yield {'t': t, 'n': n, 'leaf': leaf, 'script': script}


def observe_deep(case):
    b = runner.bs()
    e, leaf = LEAVES[case['leaf']]
    for _ in range(case['n']):
        e = TEMPLATES[case['t']](e)
    glob = {'ident': lambda args, options: args[0]}
    try:
        if case['script']:
            value = b['bare'].execute_script({'statements': [gen.s_return(e)]}, {'globals': glob})
        else:
            value = b['bare'].evaluate_expression(e, {'globals': glob})
        out = ['ok', Enc({}).val(value)]
    except b['runtime'].BareScriptRuntimeError:
        out = ['err']
    except core.Hang:
        raise
    except Exception:  # pylint: disable=broad-except
        out = ['other']
    return {'trace': {'t': case['t'], 'n': case['n'], 'leaf': leaf, 'script': case['script'], 'out': out}}


def deep(rep, cases):
    results = core.pmap(observe_deep, cases)
    recs, which = [], []
    for i, (status, value) in enumerate(results):
        if status == 'ok':
            recs.append(value['trace'])
            which.append(i)
        elif status != 'skip':
            rep.violation(f'deep: no answer ({status}): {cases[i]}', {'case': cases[i], 'error': str(value)[-500:]})
    rng = rng_for(core.SEED, 'C03deep')
    can = []
    while recs and len(can) < 12:
        t = {**rng.choice([r for r in recs if r['out'][0] == 'ok'] or recs)}
        t['out'] = rng.choice([['ok', ['s', [63]]], ['other'], ['ok', ['n', 77777]]])
        can.append(t)
    verdicts = core.validate('Trace_Deep', recs + can, weight=lambda r: 20 + r['n'] // 20)
    for k, i in enumerate(which):
        if verdicts[k][0]:
            rep.violation(f'deep: {verdicts[k][0]}: {cases[i]}', {'case': cases[i], 'record': recs[k]})
    for k in range(len(can)):
        rep.canaries += 1
        if not verdicts[len(recs) + k][0]:
            rep.canaries_missed.append(('deep', can[k]['out']))
    rep.count('executions', len(cases))


def check(rep):
    quick = core.TIER == 'quick'
    machine.run_and_validate(rep, list(table_cases(quick)), 'operator-table', min_ok=0.9)
    machine.run_and_validate(rep, list(tree_cases(3000 if quick else 30000)), 'expression', min_ok=0.8)
    machine.run_and_validate(rep, list(effect_cases(1500 if quick else 20000)), 'effects', min_ok=0.7)
    deep(rep, list(deep_expr_cases(quick)))
    machine.run_and_validate(rep, list(clock_cases(20 if quick else 200)), 'clock', min_ok=0.6)
    machine.run_and_validate(rep, list(alias_cases(20 if quick else 150)), 'alias', min_ok=0.8)
