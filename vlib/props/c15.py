"""C15 array, object and string functions as sequences, maps and strings: histories of calls on aliased containers"""
import datetime
import re

from .. import core, gen, machine
from ..gen import call, num, rng_for, s_expr, str_, unary, var
from ..runner import Host, Lib

ARRAY = {'arrayCopy': 'a', 'arrayDelete': 'ai', 'arrayExtend': 'aa', 'arrayGet': 'ai', 'arrayIndexOf': 'avj', 'arrayJoin': 'as',
         'arrayLastIndexOf': 'avj', 'arrayLength': 'a', 'arrayNew': 'v*', 'arrayNewSize': 'zv', 'arrayPop': 'a', 'arrayPush': 'av*', 'arraySet': 'aiv',
         'arrayShift': 'a', 'arraySlice': 'ajj', 'arraySort': 'a'}
OBJECT = {'objectAssign': 'oo', 'objectCopy': 'o', 'objectDelete': 'ok', 'objectGet': 'okv', 'objectHas': 'ok', 'objectKeys': 'o', 'objectNew': 'kvkv',
          'objectSet': 'okv'}
STRING = {'stringCharCodeAt': 'si', 'stringEndsWith': 'ss', 'stringFromCharCode': 'cc', 'stringIndexOf': 'ssj', 'stringLastIndexOf': 'ssj',
          'stringLength': 's', 'stringLower': 's', 'stringNew': 'v', 'stringRepeat': 'sz', 'stringReplace': 'sss', 'stringSlice': 'sij',
          'stringSplit': 'ss', 'stringStartsWith': 'ss', 'stringTrim': 's', 'stringUpper': 's', 'regexEscape': 's', 'urlEncode': 's',
          'urlEncodeComponent': 's'}
ALL = {**ARRAY, **OBJECT, **STRING}
# the arguments that may be left out
OPTIONAL = {'arrayIndexOf': 1, 'arrayLastIndexOf': 1, 'arraySlice': 2, 'objectGet': 1, 'stringIndexOf': 1, 'stringLastIndexOf': 1, 'stringSlice': 1,
            'arrayNewSize': 2, 'objectNew': 3}

TEXTS = ['', 'a', 'ab', 'abcabc', ' x ', 'AbC', 'a,b,,c', 'bc', 'b', ',', 'aaaa', 'aa', '\u00e9\u4e2d', '\U0001f600x', 'a\nb', '\t', 'k', 'm', 'zz', 'a.b*c',
         '\u4e2d', 'x\U0001f600\U0001f600', "it's", '\\', 'a\\b']
HARD = ['.', '^$', '[a-z]+', '(a|b)', 'a{2}', '\\d', 'a\\', '#x y', '-', '&&', '~', '\x00', '\x1f', '\x7f', '\u2028', '\ufeff', '%', '%41', '100%', 'a b', 'a+b',
        'a&b=c', '/p?q#r', ':@!$\'()*,;', '\u00e9', '\u4e2d\u6587', '\U0001f600', '\ud800', 'a\udfff', '~._-', '"<>\\^`{|}', '\u0080', '\u07ff\u0800', '\uffff\U00010000',
        '\U0010ffff', 'aZ09_', '\n\r\t\x0b\x0c', '[', ']', '{', '}', '?', '*', '+', '|', '\\n', '//', 'http://x.y/z?a=%20&b']
CODES = [65, 97, 0, 127, 255, 8364, 55296, 65535, 128512, 1114111]


def number(x):
    return num(float(x)) if x >= 0 else unary('-', num(float(-x)))


class History:
    def __init__(self, rng, families):
        self.rng = rng
        self.names = [f for fam in families for f in fam]
        self.results = []
        self.n = 0

    def pick(self, xs):
        return xs[self.rng.randrange(len(xs))]

    def chance(self, p):
        return self.rng.random() < p

    def globals(self):
        r = self.rng
        a0 = r.choice([[], [1, 2.0, 3], [3, 'b', None, True], ['x', 'y', 'x', 'y'], [2, 1, 2, 1, 0.5]])
        o0 = r.choice([{}, {'k': 1}, {'k': 1, 'm': 2.0, 'a': None}, {'zz': [], 'k': 'v'}])
        a1 = [a0, o0, 5]
        o1 = {'k': a0, 'm': o0}
        a2 = r.choice([[[1], [1], {'k': 1}], [9], ['b', 'a', 'c'], [True, False, None, 0, '0', [], {}]])
        g = {'a0': a0, 'a0x': a0, 'a1': a1, 'a2': a2, 'o0': o0, 'o0x': o0, 'o1': o1, 'hlog': Host('hlog'), 'f0': Lib('mathAbs'), 're0': re.compile('a'),
             'd0': datetime.datetime(2024, 2, 29, 1, 2, 3), 's0': r.choice(TEXTS), 's1': r.choice(TEXTS), 'n0': r.choice([0, 1, 2, -1, 0.5])}
        self.arrays = ['a0', 'a0x', 'a1', 'a2']
        self.objects = ['o0', 'o0x', 'o1']
        self.anyvars = list(g)[:7] + ['f0', 're0', 'd0', 's0', 'n0', 'missing']
        self.anyvars = ['a0', 'a0x', 'a1', 'a2', 'o0', 'o0x', 'o1', 'f0', 're0', 'd0', 's0', 'n0', 'missing']
        return g

    def value(self):
        r = self.rng.random()
        if r < 0.3:
            return number(self.pick([0, 1, 2, 3, 5, -1]))
        if r < 0.5:
            return str_(self.pick(TEXTS))
        if r < 0.6:
            return var(self.pick(['null', 'true', 'false']))
        return var(self.pick(self.anyvars + self.results[-4:]))

    def index(self):
        r = self.rng.random()
        if r < 0.8:
            return number(self.pick([-2, -1, 0, 0, 0, 1, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8]))
        if r < 0.86:
            return num(self.pick([0.5, 1.5, 1e20, 1e300]))
        # relative to the length
        c = self.pick(self.arrays)
        return gen.binary('+', call('arrayLength', var(c)), number(self.pick([-2, -1, 0, 1, 2])))

    def arg(self, kind):
        if kind == 'a':
            return var(self.pick(self.arrays + [x for x in self.results[-5:] if x in self.resarr]))
        if kind == 'o':
            return var(self.pick(self.objects + [x for x in self.results[-5:] if x in self.resobj]))
        if kind == 's':
            return str_(self.pick(TEXTS)) if self.chance(0.8) else var(self.pick(['s0', 's1'] + [x for x in self.results[-5:] if x in self.resstr]))
        if kind == 'k':
            return str_(self.pick(['k', 'm', 'a', 'zz', '', 'q']))
        if kind in 'ij':
            return var('null') if kind == 'j' and self.chance(0.1) else self.index()
        if kind == 'z':
            return number(self.pick([0, 1, 2, 3, 5] if self.chance(0.9) else [-1, 0.5, 9, -2]))
        if kind == 'c':
            return number(self.pick(CODES)) if self.chance(0.85) else self.index()
        return self.value()

    def call(self):
        name = self.pick(self.names)
        kinds = ALL[name]
        if '*' in kinds:
            kinds = kinds.replace('v*', 'v' * self.pick([0, 1, 1, 2, 3]))
        args = [self.arg(k) for k in kinds]
        drop = OPTIONAL.get(name, 0)
        if drop and self.chance(0.5):
            args = args[:len(args) - self.rng.randrange(1, drop + 1)]
        r = self.rng.random()
        if r < 0.1 and args:
            # a wrong type
            args[self.rng.randrange(len(args))] = self.value()
        elif r < 0.14 and args:
            args.pop()
        elif r < 0.18:
            args.append(self.value())
        return name, call(name, *args)

    def program(self, n):
        glob = self.globals()
        self.resarr, self.resobj, self.resstr = set(), set(), set()
        out = []
        seen = ['a0', 'a1', 'a2', 'o0', 'o1']
        for _ in range(n):
            name, c = self.call()
            self.n += 1
            q = f'q{self.n}'
            out.append(s_expr(c, q))
            if name not in ('regexEscape', 'urlEncode', 'urlEncodeComponent'):
                self.results.append(q)
                if name in ('arrayCopy', 'arrayNew', 'arrayNewSize', 'arraySlice', 'arrayExtend', 'arrayPush', 'objectKeys', 'stringSplit'):
                    self.resarr.add(q)
                elif name in ('objectCopy', 'objectNew', 'objectAssign'):
                    self.resobj.add(q)
                elif name in ('stringNew', 'stringSlice', 'stringReplace', 'stringRepeat', 'arrayJoin', 'stringTrim'):
                    self.resstr.add(q)
            # the result, and what every container holds now
            out.append(s_expr(call('hlog', var(q), *[var(x) for x in (seen if self.chance(0.5) else self.rng.sample(seen, 2))])))
        return out, glob


def history_cases(n, length):
    fams = [[ARRAY], [ARRAY, OBJECT], [ARRAY, OBJECT, STRING], [OBJECT], [STRING], [ARRAY, ARRAY, OBJECT]]
    for i in range(n):
        rng = rng_for(core.SEED, 'C15', i)
        h = History(rng, rng.choice(fams))
        stmts, glob = h.program(rng.choice(length))
        yield {'model': {'statements': stmts}, 'glob': glob, 'debug': rng.random() < 0.7,
               'desc': '; '.join(gen.render([s])[0] for s in stmts if s['expr'].get('name'))}


def sweep_cases():
    """every index from -2 to len + 2, every function that takes one, one container each"""
    arrays = [[], [1], [1, 'x', 2.0], [2, 1, 2, 1]]
    texts = ['', 'a', 'abcabc', '\U0001f600\u00e9x']
    for kind, values in (('a', arrays), ('s', texts)):
        for v in values:
            ix = [number(k) for k in range(-2, len(v) + 3)] + [var('null'), num(0.5), str_('1'), var('true')]
            calls = []
            for name, kinds in ALL.items():
                if kinds[0] != kind:
                    continue
                for i in ix:
                    if kinds == kind + 'i':
                        calls.append((name, [i]))
                    elif kinds == 'aiv':
                        calls.append((name, [i, str_('new')]))
                    elif kinds in ('avj', 'ssj'):
                        for x in ([num(1.), num(2.), str_('x'), var('null')] if kind == 'a' else [str_(''), str_('a'), str_('c'), str_('bc'), str_('zz')]):
                            calls += [(name, [x, i]), (name, [x])]
                    elif kinds in ('ajj', 'sij'):
                        calls += [(name, [i, j]) for j in ix] + [(name, [i])]
                    elif kinds == 'sz':
                        calls.append((name, [i]))
            for k in range(0, len(calls), 20):
                glob = {'hlog': Host('hlog')}
                stmts = []
                for j, (name, args) in enumerate(calls[k:k + 20]):
                    glob[f'c{j}'] = list(v) if kind == 'a' else v
                    stmts.append(s_expr(call('hlog', call(name, var(f'c{j}'), *args), var(f'c{j}'))))
                yield {'model': {'statements': stmts}, 'glob': glob, 'debug': True, 'desc': '; '.join(gen.render([s])[0] for s in stmts) + f' on {v!r}'}


def text_cases(n):
    """escaping and encoding of hard texts"""
    texts = list(HARD) + TEXTS
    rng = rng_for(core.SEED, 'C15t')
    for _ in range(n):
        k = rng.choice([1, 2, 3, 5, 8, 14])
        texts.append(''.join(rng.choice(rng.choice(HARD + TEXTS) or 'q') if rng.random() < 0.7 else chr(rng.choice([rng.randrange(128), rng.randrange(128), rng.randrange(0x800),
                                                                                                          rng.randrange(0xd7ff), 0x10000 + rng.randrange(0xfffff)])) for _ in range(k)))
    for i in range(0, len(texts), 12):
        glob = {f't{j}': t for j, t in enumerate(texts[i:i + 12])}
        glob['hlog'] = Host('hlog')
        stmts = []
        for j in range(len(texts[i:i + 12])):
            t = var(f't{j}')
            stmts.append(s_expr(call('hlog', call('regexEscape', t), call('urlEncode', t), call('urlEncodeComponent', t), t)))
            stmts.append(s_expr(call('hlog', call('stringLength', t), call('stringCharCodeAt', t, num(0.)), call('stringSlice', t, num(0.), num(1.)),
                                     call('stringFromCharCode', call('stringCharCodeAt', t, num(0.))), call('stringTrim', t))))
            u = f't{(j * 5 + 1) % len(texts[i:i + 12])}'
            stmts.append(s_expr(call('hlog', call('stringIndexOf', t, var(u)), call('stringReplace', t, var(u), str_('<\\g<0>$&>')), call('stringSplit', t, var(u)))))
        yield {'model': {'statements': stmts}, 'glob': glob, 'debug': True, 'desc': f'texts {texts[i:i + 12]!r}'}


def check(rep):
    quick = core.TIER == 'quick'
    core.require_model('MC_Heap', None if quick else 'MC_Heap_deep.cfg')
    machine.run_and_validate(rep, list(sweep_cases()), 'index-sweep', min_ok=0.9)
    machine.run_and_validate(rep, list(text_cases(300 if quick else 6000)), 'texts', min_ok=0.8)
    machine.run_and_validate(rep, list(history_cases(1500 if quick else 20000, [6, 12, 20, 30])), 'history', min_ok=0.6)
