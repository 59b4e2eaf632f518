"""C09 the statement budget is exact, complete and monotone"""
import json

from .. import core, gen, incgen, machine, runner
from ..gen import binary, call, num, rng_for, s_expr, s_for, s_func, s_if, s_return, s_while, str_, var
from ..runner import Host

FULL = 3000     # the limit of the reference run


class BudgetGen(gen.ProgGen):
    """programs that run statements in every way: calls, callbacks of library and host functions, partials, data expressions"""

    def __init__(self, rng, sort=False, **kwargs):
        super().__init__(rng, **kwargs)
        self.sort = sort
        self.exprs = {}

    def rows(self):
        return call('arrayNew', *[call('objectNew', str_('a'), num(float(k)), str_('b'), str_('xy'[k % 2])) for k in range(self.pick([1, 2, 3]))])

    def data_expr(self):
        f = self.pick(['cb', 'cbv', 'cb'])
        e = self.pick([call(f, var('a')), binary('>', call(f, var('a')), num(0.)), binary('+', call(f, var('v')), call(f, var('b'))), call('if', call(f, var('b')), num(1.), var('a'))])
        text = gen.expr_text(e)
        self.exprs[text] = e
        return str_(text)

    def libcall(self, depth, names):
        r = self.rng.random()
        f = self.pick(['cb', 'cbv'])
        vars_ = [] if self.chance(0.4) else [call('objectNew', str_('v'), num(2.))]
        if r < 0.2:
            return call(self.pick(['arrayIndexOf', 'arrayLastIndexOf']), self.pick([var('arr'), call('arrayNew', num(0.), num(1.), num(0.))]), var(f))
        if r < 0.35:
            return call('hcall', var(self.pick([f, 'part', 'hlog'])), self.expr(0, names))
        if r < 0.5:
            return call('dataFilter', self.rows(), self.data_expr(), *vars_)
        if r < 0.6:
            return call('dataCalculatedField', self.rows(), str_('z'), self.data_expr(), *vars_)
        if r < 0.7:
            return call('dataJoin', self.rows(), self.rows(), self.data_expr(), *([self.data_expr(), var('false')] + vars_ if self.chance(0.6) else []))
        if r < 0.78:
            return call('part', self.expr(0, names))
        if r < 0.85 and self.sort:
            return call('arraySort', call('arrayNew', num(3.), num(1.), num(2.)), var('cmp'))
        return super().libcall(depth, names)

    def program(self):
        body = [s_expr(call('hlog', var('x')))]
        if self.chance(0.5):
            body.append(s_if([(binary('<', var('x'), num(1.)), [s_return(var('false'))])]))
        cb = s_func('cb', ['x'], body + [s_return(binary('>=', var('x'), num(1.)) if self.chance(0.5) else var('x'))])
        cbv = s_func('cbv', ['x', 'y'], [s_expr(binary('+', var('x'), num(1.)), 't'), s_expr(call('cb', var('t')))])
        cmp_ = s_func('cmp', ['x', 'y'], [s_expr(call('hlog', var('x'), var('y'))), s_return(binary('-', var('x'), var('y')))])
        part = s_expr(call('systemPartial', var('cb'), num(2.)), 'part')
        return [cb, cbv, cmp_, part] + super().program()


def programs(n, sort, tag):
    for i in range(n):
        rng = rng_for(core.SEED, 'C09', tag, i)
        g = BudgetGen(rng, sort, max_depth=rng.choice([1, 2, 3]), size=rng.choice([4, 8, 14]))
        if rng.random() < 0.3:
            # included files run under the same budget
            inc = incgen.inc_case(rng, rng.choice([2, 4, 6]), 0)
            ast = incgen.merge(g.program() + [s_expr(num(0.), 'cnt')] + [s for s in inc['ast'] if 'return' not in s] + g.block(0, None, [], list(g.vars)))
            case = {**inc, 'text': gen.text_of(ast), 'ast': None}
            files = {u: t for u, t in inc['files'].items() if isinstance(t, str)}
            # some of the files call back
            for u in files:
                if rng.random() < 0.5 and u in inc['asts']:
                    files[u] = files[u] + "\nhlog(arrayIndexOf(arrayNew(0, 1), cb))\ndataFilter(arrayNew(objectNew('a', 1)), 'cb(a)', objectNew('q', 1))\n"
            g.exprs['cb(a)'] = call('cb', var('a'))
            case['files'] = files
            case['asts'] = {}
            del case['ast']
        else:
            case = {'text': gen.text_of(g.program())}
        case['glob'] = gen.base_globals(rng)
        case['glob']['hcall'] = Host('hcall')
        case['exprs'] = g.exprs
        case['names'] = ['a', 'b', 'v', 'z', 'xy', 'q', 'cnt', 'g1', 'g2', 'p', 'r1', 'r2']
        case['debug'] = rng.random() < 0.2
        case['check_count'] = True
        case['hide'] = ''
        yield case


ENDLESS = [
    'while true:\n    hlog(1)\nendwhile\n',
    'x:\njump x\n',
    'function f(x):\n    while true:\n        hlog(x)\n    endwhile\nendfunction\nf(1)\n',
    'function f(x):\n    while true:\n        hlog(x)\n    endwhile\nendfunction\narrayIndexOf(arrayNew(1), f)\n',
    'function f(x):\n    while true:\n        hlog(x)\n    endwhile\nendfunction\narrayLastIndexOf(arrayNew(1, 2), f)\n',
    'function f(x, y):\n    while true:\n        hlog(x)\n    endwhile\nendfunction\narraySort(arrayNew(2, 1), f)\n',
    "function f(x):\n    while true:\n        hlog(x)\n    endwhile\nendfunction\ndataFilter(arrayNew(objectNew('a', 1)), 'f(a)')\n",
    "function f(x):\n    while true:\n        hlog(x)\n    endwhile\nendfunction\ndataFilter(arrayNew(objectNew('a', 1)), 'f(a)', objectNew('v', 1))\n",
    "function f(x):\n    while true:\n        hlog(x)\n    endwhile\nendfunction\ndataCalculatedField(arrayNew(objectNew('a', 1)), 'b', 'f(a)', objectNew('v', 1))\n",
    "function f(x):\n    while true:\n        hlog(x)\n    endwhile\nendfunction\ndataJoin(arrayNew(objectNew('a', 1)), arrayNew(objectNew('a', 1)), 'f(a)', null, false, objectNew('v', 1))\n",
    "function f(x):\n    hlog(x)\n    return false\nendfunction\nwhile true:\n    dataFilter(arrayNew(objectNew('a', 1)), 'f(a)', objectNew('v', 1))\nendwhile\n",
    "function f(x):\n    hlog(x)\n    return false\nendfunction\nwhile true:\n    dataJoin(arrayNew(objectNew('a', 1)), arrayNew(objectNew('a', 1)), 'f(a)', 'f(a)', true, objectNew('v', 1))\nendwhile\n",
    "function f(x):\n    hlog(x)\n    return false\nendfunction\nwhile true:\n    dataCalculatedField(arrayNew(objectNew('a', 1)), 'b', 'f(a)', objectNew('v', 1))\nendwhile\n",
    'function f(x):\n    hlog(x)\n    return false\nendfunction\ng = systemPartial(f, 1)\nwhile true:\n    g()\nendwhile\n',
    'function f(x):\n    hlog(x)\n    return false\nendfunction\nwhile true:\n    hcall(f, 1)\nendwhile\n',
    "while true:\n    include 'a.bare'\nendwhile\n",
    "include 'b.bare'\n",
    "include 'c.bare'\nwhile true:\n    loop(2)\nendwhile\n",
    "include 'c.bare'\nloopfor(1)\n",
    "function f(n):\n    include 'a.bare'\n    return f(n + 1)\nendfunction\nwhile true:\n    include 'a.bare'\n    g = f\nendwhile\n",
    "i = 0\nfor v in arrayNew(1, 2, 3):\n    hlog(v)\n    while true:\n        i = i + 1\n        if i % 2:\n            continue\n        endif\n        hlog(i)\n    endwhile\nendfor\n",
]
FILES = {'a.bare': 'hlog(7)\n', 'b.bare': 'while true:\n    hlog(8)\nendwhile\n', 'c.bare': 'function loop(x):\n    hlog(x)\n    return x\nendfunction\n'
         'function loopfor(x):\n    while true:\n        loop(x)\n    endwhile\nendfunction\n'}


def endless_cases():
    e = {'f(a)': call('f', var('a'))}
    for text in ENDLESS:
        yield {'text': text, 'glob': {'hlog': Host('hlog'), 'hcall': Host('hcall')}, 'files': FILES, 'fetch': True, 'exprs': e, 'check_count': True, 'hide': '',
               'names': ['a', 'b', 'v', 'x', 'n']}


LONG = [
    'while true:\n    n = n + 1\nendwhile\n',
    'function f(x):\n    n = x + 1\n    return n\nendfunction\nn = 0\nwhile true:\n    n = f(n)\nendwhile\n',
    "n = 0\nwhile true:\n    for v in arrayNewSize(100):\n        n = n + 1\n    endfor\n    hlog(n)\nendwhile\n",
    "function f(x):\n    y = x\n    z = y\nendfunction\nwhile true:\n    arrayIndexOf(big, f)\nendwhile\n",
    "n = 0\nwhile true:\n    n = n + 1\n    include 'n.bare'\nendwhile\n",
]
LONG_FILES = {'n.bare': 'm = n\nm = m + n\n'}
LONG_LIMITS = [999, 1000, 1023, 1024, 1025, 2000, 2047, 2049, 4095, 4097, 5001, 8192, 9999, 10000]


def long_cases(quick):
    """limits far beyond those of the other programs"""
    for k, text in enumerate(LONG):
        ls = LONG_LIMITS if not quick else rng_for(core.SEED, 'C09long', k).sample(LONG_LIMITS, 6) + [1024]
        for lim in ls + ([16383, 32768, 65537, 100000] if not quick else [16384] if k == core.SEED % len(LONG) else []):
            yield {'text': text, 'glob': {'hlog': Host('hlog'), 'n': 0, 'big': [0] * 7}, 'files': LONG_FILES, 'fetch': True, 'check_count': True, 'hide': '',
                   'lim': lim, 'real_lim': lim, 'names': ['m', 'n'], 'desc': f'limit {lim}: {text}'}


def limits(n, rng, quick):
    """the limits to try for a run of n statements"""
    if n <= 12 and not quick:
        return list(range(1, n + 4))
    some = {1, 2, n - 1, n, n + 1, n + 2}
    k = 4 if quick else 14
    while k > 0:
        some.add(rng.randrange(1, n + 2))
        k -= 1
    return sorted(x for x in some if x > 0)


def relation(rep, cases, label, all_limits, inf):
    """the runs of each program against each other"""
    jobs = [(c, ls, inf) for c, ls in zip(cases, all_limits)]
    res = core.pmap(run_limits, jobs, soft=20.0)
    recs = []
    which = []
    for i, (status, value) in enumerate(res):
        if status == 'ok' and 'violation' not in value:
            recs.append(value)
            which.append(i)
        elif status != 'skip':
            rep.violation(f'{label}: {value["violation"] if status == "ok" else status}: {machine.describe(cases[i])}', {'case': machine.case_detail(cases[i])})
    can = []
    rng = rng_for(core.SEED, 'C09can', label)
    for r in recs[:40]:
        t = json.loads(json.dumps(r))
        k = rng.randrange(len(t['runs']))
        run = t['runs'][k]
        kind = rng.choice(['log', 'k', 'out'])
        if kind == 'log':
            run['log'].insert(0, 'x')
        elif kind == 'k':
            run['k'] = 'ok' if run['k'] == 'err' else 'err'
            run['out'] = 'x'
        elif run['lim'] != 0 and (inf or run['lim'] < t['n']):
            run['e'] = 'other'
        else:
            run['out'] = 'x'
        can.append(t)
    verdicts = core.validate('Trace_Budget', recs + can, weight=lambda r: sum(len(x['log']) for x in r['runs']) + 5)
    for k, i in enumerate(which):
        if verdicts[k][0]:
            rep.violation(f'{label}: {verdicts[k][0]}: {machine.describe(cases[i])}', {'case': machine.case_detail(cases[i]), 'limits': all_limits[i], 'record': recs[k]})
    for k, t in enumerate(can):
        rep.canaries += 1
        if not verdicts[len(recs) + k][0]:
            rep.canaries_missed.append((label, t['runs'][0]['lim']))
    rep.count('programs_under_limits', len(recs))
    rep.count('limited_runs', sum(len(r['runs']) for r in recs))


def run_limits(job):
    case, ls, inf = job

    def run(lim):
        r = runner.run_case({**case, 'lim': lim, 'real_lim': lim})
        if 'violation' in r:
            raise RuntimeError(r['violation'])
        t = r['trace']
        o = t['out']
        return {'lim': lim, 'log': [json.dumps(x) for x in t['log']], 'k': o['k'], 'e': o['e'][0] if o['k'] == 'err' else '', 'n': o['n'],
                'out': json.dumps([o['k'], o['v'], o['h'], o['g'], r['error']])}
    full = run(FULL if inf else 0)
    return {'n': full['n'], 'inf': inf, 'log': full['log'], 'out': full['out'], 'runs': [run(lim) for lim in ls]}


def check(rep):
    quick = core.TIER == 'quick'
    core.require_model('MC_Jump', None if quick else 'MC_Jump_deep.cfg')
    for tag, sort, n in (('machine', False, 260 if quick else 3000), ('sort', True, 120 if quick else 1500)):
        cases = list(programs(n, sort, tag))
        # how many statements each of them runs
        res = core.pmap(runner.run_case, [{**c, 'lim': FULL, 'real_lim': FULL} for c in cases])
        ok = []
        lims = []
        for i, (status, value) in enumerate(res):
            if status != 'ok' or 'violation' in value:
                rep.violation(f'{tag}: {status if status != "ok" else value["violation"]}: {machine.describe(cases[i])}', {'case': machine.case_detail(cases[i])})
            elif value['trace']['out']['k'] == 'ok' and value['count'] < 400:
                ok.append(cases[i])
                lims.append(limits(value['count'], rng_for(core.SEED, 'C09l', tag, i), quick))
        if len(ok) < 0.4 * n and not rep.violations:
            raise core.MachineryError(f'{tag}: {len(ok)} of {n} programs end')
        relation(rep, ok, 'relation-' + tag, [[0] + ls for ls in lims], False)
        if not sort:
            rng = rng_for(core.SEED, 'C09v')
            runs = []
            for c, ls in zip(ok, lims):
                for lim in ([0] + rng.sample(ls, min(len(ls), 4)) if quick else [0] + ls):
                    runs.append({**c, 'lim': lim, 'real_lim': lim, 'desc': f'limit {lim}: {c["text"]}'})
            machine.run_and_validate(rep, runs, 'limited', min_ok=0.6)
    machine.run_and_validate(rep, list(long_cases(quick)), 'long', min_ok=0.9, canaries=8)
    endless = list(endless_cases())
    ls = [1, 2, 3, 4, 5, 7, 10, 20, 50, 51, 52, 53, 100, 200]
    runs = [{**c, 'lim': lim, 'real_lim': lim, 'desc': f'limit {lim}: {c["text"]}'} for c in endless for lim in ls if lim <= 100]
    machine.run_and_validate(rep, runs, 'endless', min_ok=0.6)
    relation(rep, endless, 'relation-endless', [ls] * len(endless), True)
