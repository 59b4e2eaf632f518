"""C08 jump-level models execute by the documented statement semantics"""
import itertools

from .. import core, gen, machine
from ..gen import binary, call, num, rng_for, s_expr, s_func, s_return, str_, unary, var
from ..runner import Host
from .c05 import EXPRS, KINDS, base, lib_calls

Q = call('arrayPop', var('q'))


def jump(label, e=None):
    return {'jump': {'label': label, 'expr': e} if e is not None else {'label': label}}


def label(name):
    return {'label': name}


ALPHA = ['p', 'j1', 'j2', 'c1', 'c2', 'L1', 'L2', 'r', 'f']


def letters(word, at=0):
    """a statement list of a word over the alphabet"""
    out = []
    for i, w in enumerate(word):
        if w == 'p':
            out.append(s_expr(call('hlog', num(float(at + i)))))
        elif w[0] == 'j':
            out.append(jump(w[1]))
        elif w[0] == 'c':
            out.append(jump(w[1], Q))
        elif w[0] == 'L':
            out.append(label(w[1]))
        elif w == 'r':
            out.append(s_return(num(float(at + i))))
        elif w == 'f':
            out.append(s_expr(call('hlog', call('f', num(float(at + i)))), 'x'))
    return out


ORACLES = [[], [False, True, True, False, True, True], [True] * 9, [None, 0, '', [], {}, 'a']]


def word_cases(maxlen, extra, seed):
    rng = rng_for(core.SEED, 'C08w', seed)
    words = []
    for n in range(maxlen + 1):
        words += list(itertools.product(ALPHA, repeat=n))
    for _ in range(extra):
        words.append(tuple(rng.choice(ALPHA) for _ in range(rng.choice([maxlen + 1, maxlen + 1, maxlen + 2, maxlen + 3, 8]))))
    for w in words:
        stmts = letters(w)
        if 'f' in w or rng.random() < 0.1:
            body = letters([rng.choice(ALPHA[:-1]) for _ in range(rng.choice([0, 1, 2, 3, 4]))], 20)
            stmts.insert(0, s_func('f', ['x'], body))
        q = list(rng.choice(ORACLES)) if any(x[0] == 'c' for x in w) else []
        yield {'model': {'statements': stmts}, 'glob': {'q': q, 'hlog': Host('hlog')}, 'lim': 30, 'check_count': True, 'twice': True, 'hide': ''}


NAMES = ['a', 'b', 'c', 'x1', '__bareScriptX0', 'a b', '\u00e9', "it's"]
LABELS = ['l0', 'l1', 'l2', '', 'a b', 'a', '__bareScriptDone0', 'null', 'if']


class ModelGen(gen.ProgGen):
    """random hand-built models: jumps everywhere, duplicate and missing labels, functions in functions"""

    def stmts(self, depth, n):
        out = []
        labels = [self.pick(LABELS) for _ in range(self.pick([1, 2, 3]))]
        for _ in range(n):
            r = self.rng.random()
            if r < self.includes:
                out.append(self.include())
            elif r < 0.3:
                out.append(s_expr(self.expr(2), self.pick(NAMES) if self.chance(0.6) else None))
            elif r < 0.45:
                out.append(s_expr(call('hlog', *[self.expr(1) for _ in range(self.pick([0, 1, 1, 2]))])))
            elif r < 0.6:
                out.append(label(self.pick(labels)))
            elif r < 0.77:
                to = self.pick(labels) if self.chance(0.93) else self.pick(LABELS)
                e = None if self.chance(0.3) else self.pick([lambda: call('arrayPop', var('q')), lambda: self.expr(2), lambda: call('hlog', self.expr(1))])()
                out.append(jump(to, e))
            elif r < 0.84:
                out.append(s_return(self.expr(2) if self.chance(0.7) else None))
                if self.chance(0.6):
                    out[-1] = s_expr(self.expr(2))
            elif r < 0.93 and depth < 3:
                out.append(self.func(depth))
            else:
                name = self.pick(['fa', 'fb', 'fc', 'a b']) if self.chance(0.9) else self.pick(['b', 'nope', 'mathAbs'])
                out.append(s_expr(call(name, *[self.expr(1) for _ in range(self.pick([0, 1, 2, 3]))]), self.pick(NAMES)))
        return out

    includes = 0

    def include(self):
        incs = []
        for _ in range(self.pick([1, 1, 2, 3])):
            inc = {'url': self.pick(['i0.bare', 'i1.bare', 'sub/i2.bare', 'i1.bare', '/i3.bare', 'x:i4.bare'])}
            if self.chance(0.5):
                inc['system'] = self.chance(0.7)
            incs.append(inc)
        return {'include': {'includes': incs}}

    def func(self, depth):
        n = self.pick([0, 0, 1, 2, 3])
        args = [self.pick(['a', 'p', 'q', 'r', 'a b']) for _ in range(n)]
        f = {'name': self.pick(['fa', 'fb', 'fc', 'a b', 'mathAbs', 'b']), 'statements': self.stmts(depth + 1, self.pick([0, 1, 2, 3, 5]))}
        if args:
            f['args'] = args
            if self.chance(0.5):
                f['statements'].insert(0, s_expr(call('hlog', *[var(a) for a in args])))
        if self.chance(0.3):
            f['lastArgArray'] = self.chance(0.6)
        if self.chance(0.2):
            f['async'] = self.chance(0.5)
        return {'function': f}


def random_cases(n):
    for i in range(n):
        rng = rng_for(core.SEED, 'C08r', i)
        g = ModelGen(rng, size=20)
        g.includes = rng.choice([0, 0, 0.12])
        g.vars = NAMES + ['arr', 'obj', 'p', 'q', 'r']
        g.funcs = [('fa', 1, False), ('fb', 2, False), ('fc', 1, False)]
        stmts = []
        for name in ('fa', 'fb', 'fc'):
            if rng.random() < 0.85:
                f = g.func(1)
                f['function']['name'] = name
                stmts.append(f)
        stmts += g.stmts(0, rng.choice([3, 6, 10, 16]))
        glob = gen.base_globals(rng)
        glob['q'] = [rng.choice([True, False, None, 1, 0.0, 'a', '', [], [0], {}]) for _ in range(rng.choice([0, 3, 9]))]
        case = {'model': {'statements': stmts}, 'glob': glob, 'lim': rng.choice([20, 60, 150]), 'check_count': True, 'twice': True, 'hide': '',
                'debug': rng.random() < 0.2}
        if g.includes:
            texts = ["hlog('i0')\nb = 1\n", "hlog('i1')\nl0:\nif a:\n    return 5\nendif\na = arrayPop(q)\n", "function fa(p):\n    hlog('new', p)\nendfunction\n", '']
            case['prefix'] = rng.choice([None, 'lib/', ':bare-include:/', 'https://h.com/inc/'])
            case['base'] = rng.choice([None, 'main.bare', 'd/main.bare'])
            case['fetch'] = True
            case['names'] = ['a', 'b', 'p', 'q', 'fa']
            case['files'] = {u: rng.choice(texts) for top in ('', 'lib/', ':bare-include:/', 'https://h.com/inc/', 'd/') for u in
                             (top + 'i0.bare', top + 'i1.bare', top + 'sub/i2.bare')}
            case['files'].update({'/i3.bare': rng.choice(texts), 'x:i4.bare': texts[0]})
        yield case


def long_cases(n):
    """long lists with many labels: the target is the first definition, before or after the jump, cached or not"""
    for i in range(n):
        rng = rng_for(core.SEED, 'C08l', i)
        k = rng.choice([3, 5, 8])
        names = [f'n{j}' for j in range(k)]
        stmts = []
        for j in range(rng.choice([12, 25, 40])):
            r = rng.random()
            if r < 0.35:
                stmts.append(label(rng.choice(names)))
            elif r < 0.7:
                stmts.append(s_expr(call('hlog', num(float(j)))))
            else:
                stmts.append(jump(rng.choice(names), Q))
        q = [rng.random() < 0.5 for _ in range(rng.choice([10, 30]))]
        if rng.random() < 0.5:
            # the same list as a function body, called twice: the caches are per call
            stmts = [s_func('f', [], stmts + [s_return(str_('end'))]), s_expr(call('hlog', call('f'))), s_expr(call('hlog', call('f')))] + \
                (stmts if rng.random() < 0.3 else [])
        yield {'model': {'statements': stmts}, 'glob': {'q': q, 'hlog': Host('hlog')}, 'lim': 200, 'check_count': True, 'twice': True, 'hide': ''}


def parsed_cases(n):
    """parsed jump-level programs: the statements of the specification are the parser's"""
    for i in range(n):
        rng = rng_for(core.SEED, 'C08p', i)
        g = gen.ProgGen(rng, max_depth=3, size=rng.choice([10, 20]))
        yield {'text': gen.text_of(g.program()), 'glob': gen.base_globals(rng), 'real_lim': 0, 'lim': 0, 'check_count': True, 'twice': True, 'hide': ''}


SPOIL = """function spoil(v, depth):
    if systemType(v) == 'array':
        if depth > 0:
            for x in arrayCopy(v):
                spoil(x, depth - 1)
            endfor
        endif
        arrayPush(v, 'spoiled')
    endif
    if systemType(v) == 'object':
        if depth > 0:
            for k in objectKeys(v):
                spoil(objectGet(v, k), depth - 1)
            endfor
        endif
        objectSet(v, 'spoiled', 1)
    endif
endfunction
"""
LITERALS = {'jsonParse': ["'[1,[2]]'", "'{\"a\":{}}'"], 'stringSplit': ["'a,b', ','"], 'dataParseCSV': ["'a,b', '1,2'"], 'regexNew': ["'a(b)?'"],
            'schemaParse': ["'struct A', '    int a'", "'typedef int[] A'"], 'regexSplit': ["regexNew(','), 'a,b'"], 'objectNew': ["'a', arrayNew()"],
            'regexMatch': ["regexNew('a(b)?'), 'xab'"], 'regexMatchAll': ["regexNew('a(b)?'), 'xaba'"], 'arrayNew': ['1, objectNew()'],
            'arrayNewSize': ['3, arrayNew()', '3']}


def fresh_cases(n):
    """what a call gives belongs to the script: changing it changes no later call and no later execution"""
    names = [x for x in KINDS if x not in ('datetimeNow', 'datetimeToday', 'mathRandom')]
    for i in range(n):
        rng = rng_for(core.SEED, 'C08f', i)
        name = names[i % len(names)]
        args = rng.choice(LITERALS[name]) if name in LITERALS and rng.random() < 0.7 else \
            ', '.join(e['variable'] if 'variable' in e else 'null' for e in lib_calls(rng, name, 1)[0]['function']['args'])
        calls = [f'{name}({args})'] * 2
        if rng.random() < 0.5:
            calls.insert(1, rng.choice([f'{m}({a})' for m, texts in LITERALS.items() for a in texts]))
        lines = []
        for j, c in enumerate(calls):
            lines += [f'r{j} = {c}', f'hlog(r{j}, jsonStringify(r{j}))', f'spoil(r{j}, {rng.choice([0, 1, 4])})']
        yield {'text': SPOIL + '\n'.join(lines + ['return ' + rng.choice(['r0', 'r1', '1'])]), 'glob': base(rng), 'real_lim': 0, 'lim': 0, 'unk': True,
               'twice': True, 'hide': '', 'exprs': EXPRS}


def check(rep):
    quick = core.TIER == 'quick'
    core.require_model('MC_Jump', None if quick else 'MC_Jump_deep.cfg')
    machine.run_and_validate(rep, list(word_cases(3 if quick else 4, 1200 if quick else 20000, 0)), 'word', min_ok=0.95)
    machine.run_and_validate(rep, list(random_cases(900 if quick else 12000)), 'hand-built', min_ok=0.7)
    machine.run_and_validate(rep, list(long_cases(300 if quick else 3000)), 'long', min_ok=0.95)
    machine.run_and_validate(rep, list(parsed_cases(250 if quick else 3000)), 'parsed', min_ok=0.8)
    machine.run_and_validate(rep, list(fresh_cases(400 if quick else 4000)), 'fresh results', min_ok=0.3)
