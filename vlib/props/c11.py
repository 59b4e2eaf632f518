"""C11 value comparison is a total preorder and every consumer agrees with it"""
import copy
import datetime
import re
import uuid

from .. import core, gen, machine, runner
from ..enc import Enc
from ..gen import binary, call, num, rng_for, s_expr, str_, unary, var
from ..runner import Host, Lib

OPS6 = ['<', '<=', '==', '!=', '>=', '>']
N = 9
UTC = datetime.timezone.utc


def leaves():
    return [None, True, False, 0, 0.0, -0.0, 1, 1.0, -1, 2, 2.0, 10, 9.0, 0.5, -2.5, 1e300, -1e300, 5e-324, 2 ** 53, 2 ** 53 + 1, float(2 ** 53), 10 ** 15, 1e15, 1e-7,
            float('inf'), float('-inf'), '', 'a', 'A', 'aa', 'ab', 'b', 'B', '0', '1', '10', '9', 'null', '\u00e9', 'e\u0301', '\uffff', '\U0001f600', '\ud83d', 'a\x00', ' ',
            datetime.date(2024, 2, 29), datetime.datetime(2024, 2, 29), datetime.datetime(2024, 2, 29, 0, 0, 0, 1000), datetime.datetime(2024, 2, 29, 0, 0, 0, 1),
            datetime.datetime(2024, 2, 29, tzinfo=UTC), datetime.datetime(2024, 2, 29, 1, tzinfo=datetime.timezone(datetime.timedelta(hours=1))),
            datetime.datetime(2024, 2, 28, 23, 0, tzinfo=datetime.timezone(datetime.timedelta(hours=-1))), datetime.datetime(1, 1, 3), datetime.date(9999, 12, 31),
            Host('hlog'), Lib('mathAbs'), Lib('arrayNew'), re.compile('a'), re.compile('b'), uuid.UUID(int=5), uuid.UUID(int=6)]


KEYS = ['a', 'b', 'c', 'A', '', 'aa', '\u00e9', '1', '10', '9']


class ValueGen:
    def __init__(self, rng):
        self.rng = rng
        self.pool = leaves()
        # values of a universe are close to each other
        self.few = [self.pool[rng.randrange(len(self.pool))] for _ in range(5)] + [1, 1.0, 2, 'a', None]
        self.keys = [rng.choice(KEYS) for _ in range(3)]

    def leaf(self):
        r = self.rng
        return r.choice(self.few) if r.random() < 0.8 else self.pool[r.randrange(len(self.pool))]

    def value(self, depth):
        r = self.rng
        x = r.random()
        if depth <= 0 or x < 0.3:
            return self.leaf()
        if x < 0.65:
            return [self.value(depth - 1) for _ in range(r.choice([0, 1, 2, 2, 3]))]
        return {r.choice(self.keys): self.value(depth - 1) for _ in range(r.choice([0, 1, 2, 2, 3]))}

    def respell(self, v):
        """the same value: integral numbers as int or float, keys in another order, fresh containers, other spellings of a datetime"""
        r = self.rng
        if isinstance(v, bool) or v is None:
            return v
        if isinstance(v, int) and abs(v) <= 2 ** 53:
            return float(v) if r.random() < 0.5 else v
        if isinstance(v, float) and abs(v) < 1e15 and v == int(v):
            return int(v) if r.random() < 0.5 else v
        if isinstance(v, list):
            return [self.respell(x) for x in v]
        if isinstance(v, dict):
            items = [(k, self.respell(x)) for k, x in v.items()]
            r.shuffle(items)
            return dict(items)
        return v

    def mutate(self, v):
        """a value that differs in one place"""
        r = self.rng
        if isinstance(v, list) and r.random() < 0.8:
            v = list(v)
            x = r.random()
            if v and x < 0.5:
                i = r.randrange(len(v))
                v[i] = self.mutate(v[i])
            elif v and x < 0.65:
                v.pop(r.randrange(len(v)))
            elif v and x < 0.8:
                i = r.randrange(len(v))
                v[i], v[-1] = v[-1], v[i]
            else:
                v.append(self.leaf())
            return v
        if isinstance(v, dict) and r.random() < 0.8:
            v = dict(v)
            x = r.random()
            if v and x < 0.5:
                k = r.choice(sorted(v))
                v[k] = self.mutate(v[k])
            elif v and x < 0.7:
                v.pop(r.choice(sorted(v)))
            else:
                v[r.choice(self.keys + KEYS)] = self.leaf()
            return v
        x = r.random()
        if isinstance(v, str) and x < 0.5:
            return v + r.choice(['', 'a', 'b', '\u00e9']) if r.random() < 0.6 else v[:-1]
        if isinstance(v, (int, float)) and not isinstance(v, bool) and x < 0.5 and abs(v) < 1e14:
            return v + r.choice([1, -1, 0.5])
        if isinstance(v, datetime.datetime) and x < 0.5 and 2 < v.year < 9998:
            return v + datetime.timedelta(milliseconds=r.choice([1, -1]))
        return self.leaf() if x < 0.85 else [v] if x < 0.93 else {r.choice(self.keys): v}

    def universe(self, n):
        r = self.rng
        out = []
        while len(out) < n:
            x = r.random()
            if out and x < 0.25:
                out.append(self.respell(r.choice(out)))
            elif out and x < 0.7:
                out.append(self.mutate(r.choice(out)))
            elif x < 0.75 and out:
                out.append(r.choice(out))
            else:
                out.append(self.value(r.choice([0, 1, 2, 2, 3])))
        r.shuffle(out)
        return out


def universes(n):
    every = leaves()
    # every pair of leaves at least once
    k = (len(every) + 3) // 4
    groups = [every[i * 4:i * 4 + 4] for i in range(k)]
    for i in range(k):
        for j in range(i, k):
            u = groups[i] + groups[j]
            yield {'glob': {'vals': (u * 9)[:N]}}
    for i in range(n):
        rng = rng_for(core.SEED, 'C11', i)
        yield {'glob': {'vals': ValueGen(rng).universe(N) if i % 3 else narrow(rng, every)}}


def narrow(rng, every):
    """values of one to three types only"""
    def kind(v):
        return 'number' if isinstance(v, (int, float)) and not isinstance(v, bool) else 'text' if isinstance(v, str) else type(v).__name__
    kinds = rng.sample(sorted({kind(v) for v in every} | {'list', 'dict'}), rng.choice([1, 2, 2, 3]))
    if rng.random() < 0.3:
        kinds = rng.choice([['bool', 'number'], ['number'], ['text'], ['datetime', 'date'], ['NoneType', 'number'], ['NoneType', 'bool', 'number'], ['number', 'text'],
                            ['list'], ['dict'], ['list', 'dict']])
    vg = ValueGen(rng)
    vg.pool = [v for v in every if kind(v) in kinds] or [1, 2., True]
    vg.few = [rng.choice(vg.pool) for _ in range(6)]
    out = []
    while len(out) < N:
        x = rng.random()
        k = rng.choice(kinds)
        if out and x < 0.2:
            out.append(vg.respell(rng.choice(out)))
        elif k == 'list':
            out.append([vg.leaf() for _ in range(rng.choice([0, 1, 1, 2, 3]))])
        elif k == 'dict':
            out.append({rng.choice(vg.keys): vg.leaf() for _ in range(rng.choice([0, 1, 1, 2, 3]))})
        else:
            out.append(rng.choice([v for v in every if kind(v) == k]))
    rng.shuffle(out)
    return out


_MODEL = {}


def model():
    """the script that compares all pairs of v1..vN and uses the comparison in every consumer"""
    if not _MODEL:
        vs = [var(f'v{i}') for i in range(N)]
        stmts = []
        for i in range(N):
            for j in range(N):
                stmts.append(s_expr(call('arrayPush', var('r'), call('systemCompare', vs[i], vs[j]), *[binary(op, vs[i], vs[j]) for op in OPS6])))
        stmts += [
            s_expr(call('arraySort', call('arrayCopy', var('vals'))), 'sort1'),
            s_expr(call('arraySort', call('arrayCopy', var('vals')), var('systemCompare')), 'sort2'),
            s_expr(call('arraySort', call('arraySort', call('arrayCopy', var('vals')), var('backward'))), 'sort3'),
            s_expr(call('dataSort', call('arrayCopy', var('rows')), call('arrayNew', call('arrayNew', str_('k')))), 'rows0'),
            s_expr(call('dataSort', call('arrayCopy', var('rows')), call('arrayNew', call('arrayNew', str_('k'), var('false')))), 'rows1'),
            s_expr(call('dataSort', call('arrayCopy', var('rows')), call('arrayNew', call('arrayNew', str_('k'), var('true')))), 'rows2'),
            s_expr(call('dataSort', call('arrayCopy', var('rows')), call('arrayNew', call('arrayNew', str_('k')), call('arrayNew', str_('m'), var('true')))), 'rows3')]
        for k in range(1, N + 1):
            stmts.append(s_expr(call('mathMin', *vs[:k]), f'min{k}'))
            stmts.append(s_expr(call('mathMax', *vs[:k]), f'max{k}'))
        for k in range(N):
            stmts.append(s_expr(call('arrayIndexOf', var('vals'), vs[k]), f'first{k}'))
            stmts.append(s_expr(call('arrayLastIndexOf', var('vals'), vs[k]), f'last{k}'))
        back = gen.s_func('backward', ['a', 'b'], [gen.s_return(unary('-', call('systemCompare', var('a'), var('b'))))])
        _MODEL['m'] = {'statements': [back, s_expr(call('arrayNew'), 'r')] + stmts}
    return _MODEL['m']


def sign(x):
    return int(x) if isinstance(x, (int, float)) and not isinstance(x, bool) and x in (-1, 0, 1) else 9


def observe(case):
    b = runner.bs()
    funcs = runner.lib_funcs()
    hosts = runner.make_hosts([], funcs)
    vals = runner.instantiate(case['glob']['vals'], hosts)
    enc = Enc(funcs)
    evals = [enc.val(v) for v in vals]
    glob = {f'v{i}': v for i, v in enumerate(vals)}
    glob['vals'] = list(vals)
    glob['rows'] = [{'k': v, 'i': i, 'm': vals[N - 1 - i]} for i, v in enumerate(vals)]
    bad = ''
    try:
        b['bare'].execute_script(model(), {'globals': glob, 'maxStatements': 0})
    except Exception as exc:  # pylint: disable=broad-except
        return {'violation': f'the script of comparisons fails: {type(exc).__name__}: {exc}'}
    r = glob['r']
    cmp_ = [[sign(r[(i * N + j) * 7]) for j in range(N)] for i in range(N)]
    ops = [[[x if isinstance(x, bool) else 'no' for x in r[(i * N + j) * 7 + 1:(i * N + j) * 7 + 7]] for j in range(N)] for i in range(N)]
    if any('no' in o for row in ops for o in row):
        bad = 'an operator does not give a boolean'
        ops = []
    uses = []

    def index(x):
        return int(x) if isinstance(x, (int, float)) and not isinstance(x, bool) and x == int(x) else -9
    for name in ('sort1', 'sort2', 'sort3'):
        v = glob[name]
        if not isinstance(v, list):
            bad = f'{name} is not an array'
        else:
            uses.append(['sort', [enc.val(x) for x in v]])
    for name in ('rows0', 'rows1', 'rows2', 'rows3'):
        v = glob[name]
        if not isinstance(v, list) or not all(isinstance(x, dict) and 'i' in x for x in v):
            bad = f'{name} is not an array of rows'
        else:
            ix = [index(x['i']) + 1 for x in v]
            uses.append(['two', ix] if name == 'rows3' else ['rows', name == 'rows2', ix])
    for k in range(1, N + 1):
        uses.append(['min', k, enc.val(glob[f'min{k}'])])
        uses.append(['max', k, enc.val(glob[f'max{k}'])])
    for k in range(N):
        if not callable(vals[k]):
            uses.append(['first', k + 1, index(glob[f'first{k}'])])
            uses.append(['last', k + 1, index(glob[f'last{k}'])])
    return {'trace': {'vals': evals, 'heap': enc.heap, 'cmp': cmp_, 'ops': ops, 'uses': uses, 'bad': bad}}


def corrupt(r, kind, rng):
    t = copy.deepcopy(r)
    i, j = rng.randrange(N), rng.randrange(N)
    if kind == 'cmp':
        t['cmp'][i][j] = {-1: 0, 0: 1, 1: -1}.get(t['cmp'][i][j], 0)
    elif kind == 'op':
        t['ops'][i][j][rng.randrange(6)] ^= True
    elif kind == 'sort':
        if t['cmp'][i][j] == 0:
            return None
        s = t['uses'][0][1]
        s[0], s[-1] = s[-1], s[0]
        if t['uses'][0] == r['uses'][0] or len({str(row) for row in t['cmp']}) == 1 or r['cmp'][i][j] == 0:
            return None
        # the first and the last of a sort are equal only when all are
        if all(c == 0 for row in r['cmp'] for c in row):
            return None
    elif kind == 'lost':
        t['uses'][0][1].pop()
    elif kind == 'min':
        u = next(u for u in t['uses'] if u[0] == 'max' and u[1] == N)
        k = next((k for k in range(N) if any(r['cmp'][k][m] < 0 for m in range(N))), None)
        if k is None:
            return None
        u[2] = t['vals'][k]
    elif kind == 'first':
        us = [u for u in t['uses'] if u[0] == 'first']
        if not us:
            return None
        us[0][2] = -1
    return t


def check(rep):
    quick = core.TIER == 'quick'
    core.require_model('MC_Compare', None if quick else 'MC_Compare_deep.cfg')
    cases = list(universes(4000 if quick else 20000))
    res = core.pmap(observe, cases, soft=5.0)
    recs, which = [], []
    for i, (status, value) in enumerate(res):
        if status == 'skip':
            continue
        if status != 'ok' or 'violation' in value:
            rep.violation(f'universe: {value["violation"] if status == "ok" else status + " " + str(value)[-200:]}: {machine.describe_vals(cases[i])}',
                          {'case': machine.case_detail(cases[i])})
            continue
        recs.append(value['trace'])
        which.append(i)
    rng = rng_for(core.SEED, 'C11c')
    can = []
    kinds = ['cmp', 'op', 'sort', 'lost', 'min', 'first']
    while len(can) < 36 and recs and not any(r['bad'] for r in recs):
        kind = kinds[rng.randrange(len(kinds))]
        t = corrupt(rng.choice(recs), kind, rng)
        if t is not None:
            can.append((kind, t))
    verdicts = core.validate('Trace_Compare', recs + [t for _, t in can], weight=lambda r: 40 + len(r['heap']))
    for k, i in enumerate(which):
        if verdicts[k][0]:
            rep.violation(f'universe: {verdicts[k][0]}: {machine.describe_vals(cases[i])}', {'case': machine.case_detail(cases[i]), 'record': recs[k]})
    for k, (kind, _) in enumerate(can):
        rep.canaries += 1
        if not verdicts[len(recs) + k][0]:
            rep.canaries_missed.append(('universe', kind))
    rep.count('pairs_compared', len(recs) * N * N)
    rep.count('triples_covered', len(recs) * N ** 3)
    rep.count('executions', len(cases))
