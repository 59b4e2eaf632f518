"""C19 data functions: relational meaning on random tables through the machine, CSV typing against written tables"""
import datetime
import os
import time

from .. import core, enc, gen, machine, runner
from ..gen import binary, call, group, num, rng_for, s_expr, s_return, str_, unary, var
from ..runner import Host

UTC = datetime.timezone.utc
NAMES = ['a', 'a2', 'a3', 'b', 'c', 'b c', '', 'a"', '"a":1', 'a22', '2']
VARS = ['a', 'a2', 'a3', 'b', 'c', 'b c', 'a22']
GONE = object()


def keys():
    """values that are equal, alike, or of equal text"""
    return [GONE, None, 1, 1.0, True, '1', 0, -0.0, False, 'null', 'true', '', '[1]', [1], [1.0], ['1'], '["1"]', '["a","b"]', 'a","b', ['a', 'b'], ['a","b'], 'a', 'b', '"a"', 'A',
            {}, [], {'a': 1}, {'a': 1.0}, '{"a":1}', {'a': 1, 'b': 2}, {'b': 2, 'a': 1}, [None], ['null'], [True], ['true'], [[1]], 2, '2', 0.5, -1, 10, '10', 1e21, '\u00e9',
            datetime.datetime(2024, 2, 29), datetime.date(2024, 2, 29), datetime.datetime(2024, 2, 29, tzinfo=UTC), '2024-02-29', datetime.datetime(2024, 2, 29, 0, 0, 0, 1000),
            '2024-02-29T00:00:00+00:00', 'a,b', 'a\\', 'a\\",\\"b', [None, None], [[], {}], 1.5, '1.0', 2.0 ** 53, 2 ** 53 + 1, float(2 ** 53) + 2]


CLASSES = [
    [GONE, None, 'null', '', 'a'], [1, 1.0, True, '1', '[1]', [1]], [0, -0.0, False, '', None], [[1], [1.0], ['1'], '["1"]'], ['a","b', ['a', 'b'], ['a","b'], '["a","b"]', 'a'],
    [{'a': 1}, {'a': 1.0}, '{"a":1}', {}, []], [{'a': 1, 'b': 2}, {'b': 2, 'a': 1}, {'a': 1}], [[None], ['null'], None, 'null'], [1, 2, 10], ['1', '2', '10', 1], ['a', 'b', 'A'],
    [datetime.datetime(2024, 2, 29), datetime.date(2024, 2, 29), datetime.datetime(2024, 2, 29, tzinfo=UTC), datetime.datetime(2024, 2, 29, 0, 0, 0, 1000), '2024-02-29'],
    [2.0 ** 53, 2 ** 53 + 1, float(2 ** 53) + 2], [True, False, None], ['a', 'b'], [1, 2], ['a', 'b', None], [3, 1, 2, 1.5], [True, ['true'], [True], 'true'], [0.5, -1, 0, None]]
EXACT = [0, 1, 2, 3, -1, -4, 0.5, 2.25, -7.5, 100, 12.125, 1.0, 2.0]
POSITIVE = [0.1, 0.2, 3.3, 7.7, 1, 2, 100.01, 1e3, 0.7]


class Tables:
    def __init__(self, rng):
        self.rng = rng
        self.exprs = {}
        self.pool = keys()

    def pick(self, xs):
        return xs[self.rng.randrange(len(xs))]

    def chance(self, p):
        return self.rng.random() < p

    def column(self):
        r = self.rng.random()
        if r < 0.6:
            return self.pick(CLASSES)
        if r < 0.75:
            return [self.pick(self.pool) for _ in range(self.pick([2, 3, 4]))]
        return EXACT[:self.pick([3, 6, 13])] + [None]

    def table(self, names=None, columns=None, most=12):
        """<rows>, {name: pool}"""
        if names is None:
            names = self.rng.sample(NAMES if self.chance(0.5) else NAMES[:5], self.pick([1, 2, 3, 3, 4, 5]))
        cols = {n: (columns or {}).get(n) or self.column() for n in names}
        rows = []
        for _ in range(self.pick([0, 1, 2, 3, 4, 5, 6, 8, 10, 12][:10 if most >= 12 else 6])):
            order = names if self.chance(0.8) else self.rng.sample(names, len(names))
            row = {}
            for n in order:
                v = self.pick(cols[n])
                if v is not GONE and not (len(names) > 1 and self.chance(0.06)):
                    row[n] = list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v
            rows.append(row)
        if rows and self.chance(0.06):
            rows.append(rows[0])
        return rows[:12], cols

    def lit(self, v):
        if v is None or v is GONE:
            return var('null')
        if isinstance(v, bool):
            return var('true' if v else 'false')
        if isinstance(v, (int, float)):
            return num(float(v)) if v >= 0 and v < 1e15 else num(3.)
        if isinstance(v, str):
            return str_(v)
        return var('g1')

    def expr(self, cols, depth=2):
        fields = [n for n in cols if n in VARS] or ['a']
        f = self.pick(fields)
        r = self.rng.random()
        if depth == 0 or r < 0.22:
            return var(f)
        if r < 0.45:
            return binary(self.pick(['==', '!=', '<', '<=', '>', '>=']), var(f), self.lit(self.pick(cols.get(f, [1, 'a']))))
        if r < 0.55:
            return binary(self.pick(['+', '-', '*', '==', '<']), var(f), var(self.pick(fields)))
        if r < 0.63:
            return binary(self.pick(['&&', '||']), gen.atom(self.expr(cols, depth - 1)), gen.atom(self.expr(cols, depth - 1)))
        if r < 0.68:
            return {'unary': {'op': '!', 'expr': gen.atom(self.expr(cols, 0))}}
        if r < 0.76:
            return call('if', self.expr(cols, depth - 1), self.expr(cols, 0), self.lit(self.pick(self.pool)))
        if r < 0.82:
            return binary('+', var(self.pick(['v1', 'v2', 'g1', 'a', 'b'])), str_(''))
        if r < 0.87:
            return binary(self.pick(['==', '+']), var(self.pick(['v1', 'g1', 'v2'])), var(f))
        if r < 0.94:
            return call(self.pick(['arrayNew', 'systemCompare', 'stringNew', 'jsonStringify', 'systemType', 'hlog']), var(f), *([var(self.pick(fields))] if self.chance(0.4) else []))
        return group(self.expr(cols, depth - 1))

    def text(self, e):
        t = gen.expr_text(e)
        self.exprs[t] = e
        return str_(t)

    def expr_arg(self, cols):
        if self.chance(0.02):
            t = self.pick(['a +', '', '(a', "'a"])
            self.exprs[t] = None
            return str_(t)
        return self.text(self.expr(cols))

    def joins(self, lcols, rcols):
        both = [n for n in lcols if n in rcols and n in VARS]
        args = []
        if both and self.chance(0.6):
            e = var(self.pick(both))
            if self.chance(0.3):
                e = self.pick([call('arrayNew', e, var(self.pick(both))), binary('+', e, str_('')), call('if', e, e, var('v1'))])
            args.append(self.text(e))
            if self.chance(0.4):
                args.append(var('null') if self.chance(0.5) else self.text(e))
        else:
            args.append(self.expr_arg(lcols))
            if self.chance(0.85):
                args.append(self.expr_arg(rcols))
        return args

    def call(self, tables):
        """tables: {variable: columns}; <call>, <result columns>"""
        t = self.pick(list(tables))
        cols = tables[t]
        vars_ = [var('vars')] if self.chance(0.35) else [var('null')] if self.chance(0.1) else []
        r = self.rng.random()
        if r < 0.16:
            return call('dataFilter', var(t), self.expr_arg(cols), *vars_), cols
        if r < 0.28:
            n = self.pick(['z', self.pick(list(cols)), self.pick(NAMES)])
            return call('dataCalculatedField', var(t), str_(n), self.expr_arg(cols), *vars_), {**cols, n: [1, 'a']}
        if r < 0.5:
            t2 = self.pick(list(tables))
            args = self.joins(cols, tables[t2])
            if len(args) == 2 and (vars_ or self.chance(0.5)):
                args.append(var(self.pick(['true', 'false'])))
            if len(args) == 3:
                args += vars_
            new = dict(cols)
            for n in tables[t2]:
                k = n
                i = 2
                while k in new:
                    k = n + str(i)
                    i += 1
                new[k] = tables[t2][n]
            return call('dataJoin', var(t), var(t2), *args), new
        if r < 0.65:
            return call('dataSort', var(t), var('sorts') if self.chance(0.3) else self.sorts(cols)), cols
        if r < 0.8:
            args = [self.pick([num(1.), num(2.), num(3.), num(1.), num(float(self.pick([5, 20]))), var('n1'), num(1.5) if self.chance(0.1) else num(2.)])]
            if self.chance(0.75):
                args.append(call('arrayNew', *[str_(n) for n in self.cats(cols)]))
            elif self.chance(0.3):
                args.append(var('null'))
            return call('dataTop', var(t), *args), cols
        if r < 0.97:
            cats = self.cats(cols)
            ms, names = self.measures(cols)
            args = [str_('measures'), call('arrayNew', *ms)]
            if cats:
                args = self.pick([args + [str_('categories'), call('arrayNew', *[str_(n) for n in cats])], [str_('categories'), call('arrayNew', *[str_(n) for n in cats])] + args])
            return call('dataAggregate', var(t), call('objectNew', *args)), {**{n: cols.get(n, [None]) for n in cats}, **{n: [1, 2] for n in names}}
        return call('dataValidate', var(t)), cols

    def cats(self, cols):
        n = self.pick([0, 1, 1, 2, 2, 3])
        names = self.rng.sample(list(cols), min(n, len(cols)))
        if self.chance(0.08):
            names.append('missing')
        return names

    def sorts(self, cols):
        keys_ = self.rng.sample(list(cols), min(len(cols), self.pick([1, 1, 2, 3])))
        if self.chance(0.05):
            keys_.append(keys_[0])
        return call('arrayNew', *[call('arrayNew', str_(n), *([] if self.chance(0.4) else [self.pick([var('true'), var('false'), num(1.), num(0.), var('null')])])) for n in keys_])

    def measures(self, cols):
        ms = []
        names = []
        for _ in range(self.pick([1, 2, 3, 6])):
            n = self.pick(list(cols))
            numeric = all(v is None or v is GONE or isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) <= 1000 for v in cols[n])
            exact = numeric and not any(isinstance(v, float) and v * 8 != int(v * 8) for v in cols[n] if v is not None and v is not GONE)
            f = self.pick(['count'] + (['sum', 'average', 'min', 'max'] if numeric else self.pick([['min'], ['max'], []])) + (['stddev', 'stddev'] if exact else []))
            name = f'm{len(ms)}' if self.chance(0.9) else n
            if name in names:
                continue
            names.append(name)
            args = [str_('field'), str_(n), str_('function'), str_(f)]
            if name != n:
                args += [str_('name'), str_(name)]
            ms.append(call('objectNew', *args))
        return ms, names

    def sort_value(self, cols):
        return [[n] + ([] if self.chance(0.5) else [self.chance(0.5)]) for n in self.rng.sample(list(cols), min(len(cols), self.pick([1, 2, 3])))]

    def globals(self, t0, t1, cols):
        return {'t0': t0, 't1': t1, 'vars': self.pick([{}, {'v1': 1}, {'v1': 'x', 'v2': 2.0}, {'a': 'var-a', 'v1': None, 'g1': 7}]), 'g1': self.pick([1, 'g', [1], None]), 'v2': 'gv2',
                'n1': self.pick([1, 2.0, 3, 0, 4]), 'sorts': self.sort_value(cols), 'hlog': Host('hlog')}


def setup(rng):
    g = Tables(rng)
    t0, c0 = g.table()
    share = {n: c0[n] for n in c0 if g.chance(0.7)}
    names = list(share) + [n for n in rng.sample(NAMES, g.pick([0, 1, 2])) if n not in share]
    t1, c1 = g.table(names[:5] or ['a'], share, 5 if len(t0) > 6 else 12)
    glob = g.globals(t0, t1, c0)
    if g.chance(0.05):
        glob['t1'], c1 = t0, c0
    return g, glob, {'t0': c0, 't1': c1}


ALLNAMES = NAMES + ['z', 'v1', 'v2', 'g1', 'missing'] + [n + str(i) for n in NAMES for i in (2, 3, 4, 5)] + [f'm{i}' for i in range(6)]


def case_names(glob):
    names = set(ALLNAMES)
    for t in ('t0', 't1'):
        for row in glob[t]:
            names.update(row)
    return sorted(n for n in names if n.isascii())


def script_cases(n):
    for i in range(n):
        rng = rng_for(core.SEED, 'C19', i)
        g, glob, tables = setup(rng)
        stmts = []
        for k in range(rng.choice([1, 2, 3, 4])):
            c, cols = g.call(tables)
            q = f'q{k}'
            stmts.append(s_expr(c, q))
            # the result, and what the tables hold now
            stmts.append(s_expr(call('hlog', var(q), var('t0'), var('t1'))))
            # joined rows do not multiply without end
            if c['function']['name'] != 'dataJoin' or k == 0 and len(glob['t0']) * len(glob['t1']) <= 40:
                tables[q] = cols
        stmts.append(s_return(var(q)))
        yield {'model': {'statements': stmts}, 'glob': glob, 'exprs': g.exprs, 'names': case_names(glob), 'debug': rng.random() < 0.5,
               'desc': '; '.join(gen.render([s])[0] for s in stmts if s.get('expr', {}).get('name')) + f' on {glob["t0"]!r} and {glob["t1"]!r}'}


DIRECT = {'dataFilter': ('filter_data', 3), 'dataCalculatedField': ('add_calculated_field', 4), 'dataJoin': ('join_data', 6), 'dataSort': ('sort_data', 2), 'dataTop': ('top_data', 3),
          'dataAggregate': ('aggregate_data', 2), 'dataValidate': ('validate_data', 1)}


def evaluate(e, glob):
    """the value of an argument of a generated call"""
    (k, v), = e.items()
    if k in ('number', 'string'):
        return v
    if k == 'variable':
        return {'null': None, 'true': True, 'false': False}[v] if v in ('null', 'true', 'false') else glob[v]
    args = [evaluate(a, glob) for a in v['args']]
    return args if v['name'] == 'arrayNew' else dict(zip(args[::2], args[1::2]))


def direct_cases(n):
    for i in range(n):
        rng = rng_for(core.SEED, 'C19d', i)
        g, glob, tables = setup(rng)
        c, _ = g.call(tables)
        name = c['function']['name']
        args = [evaluate(a, glob) for a in c['function']['args']]
        # valid arguments only
        if name == 'dataTop' and (args[1] != int(args[1]) or args[1] < 1) or name in ('dataFilter', 'dataCalculatedField', 'dataJoin') and None in g.exprs.values():
            continue
        if name == 'dataTop' and rng.random() < 0.5:
            args[1] = int(args[1])
        for k, a in enumerate(args):
            glob[f'p{k}'] = a
        for t in ('sorts', 'vars'):
            glob.pop(t)
        yield {'expr': call(name, *[var(f'p{k}') for k in range(len(args))]), 'direct': DIRECT[name], 'inj': True, 'glob': glob, 'exprs': g.exprs, 'names': case_names(glob),
               'tuples': rng.random() < 0.5, 'log': False, 'globs': True, 'desc': f'{DIRECT[name][0]}: {gen.expr_text(c)} on {glob["t0"]!r} and {glob["t1"]!r}'}


# ---- CSV: any text ------------------------------------------------------------------------

PIECES = ['a', 'b', '1', '2.5', '-3', '1e+3', 'true', 'false', 'null', '', '', '2024-02-29', '2024-02-30', '2023-02-29', '2024-13-01', '2024-02-29T10:20:30Z', '2024-02-30T10:20:30Z',
          '2024-02-29T10:20:30.123+02:00', '2024-02-29T25:00:00Z', '"a"', '"1"', '"a,b"', '"a""b"', '""', '"x\ny"', '"null"', '"true"', ' a', ' "q"', 'x y', 'True', 'NULL', '0', '00', '1.', '0x10',
          'a"b', '-', '\u00e9', 'a\x0cb', 'a\u2028b', 'a\x85b', '9999-12-31', '0000-01-01', '0001-01-01', '2024-2-3', '20240229', '2024-02-29 ', 'inf', 'nan', '1_0', '1e999']


def csv_text(rng):
    nc = rng.choice([1, 2, 3, 4, 5])
    head = rng.sample(['a', 'b', 'c', 'a2', '"x,y"', '""', '"q""q"', 'b c', '1', 'null'], nc)
    cols = [rng.sample(PIECES, rng.choice([1, 2, 3])) if rng.random() < 0.6 else [rng.choice(PIECES)] for _ in head]
    eol = rng.choice(['\n', '\n', '\r\n', '\r'])
    lines = [','.join(head)]
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
        row = [rng.choice(c) for c in cols]
        r = rng.random()
        if r < 0.06:
            row = row[:rng.randrange(len(row) + 1)]
        elif r < 0.1:
            row.append(rng.choice(PIECES))
        elif r < 0.13:
            lines.append('')
        lines.append(','.join(row))
    return lines, eol


def csv_cases(n):
    for i in range(n):
        rng = rng_for(core.SEED, 'C19c', i)
        glob = {'hlog': Host('hlog')}
        stmts = []
        for k in range(4):
            lines, eol = csv_text(rng)
            cuts = sorted(rng.sample(range(1, len(lines)), min(len(lines) - 1, rng.choice([0, 0, 0, 1, 2]))))
            parts = [lines[a:b] for a, b in zip([0] + cuts, cuts + [len(lines)])]
            args = []
            for p, part in enumerate(parts):
                glob[f't{k}{p}'] = eol.join(part) + (eol if rng.random() < 0.5 else '')
                args.append(var(f't{k}{p}'))
            if rng.random() < 0.1:
                args.insert(rng.randrange(len(args) + 1), var('null'))
            if rng.random() < 0.03:
                args.insert(rng.randrange(len(args) + 1), num(1.))
            stmts.append(s_expr(call('hlog', call('dataParseCSV', *args))))
        yield {'model': {'statements': stmts}, 'glob': glob, 'debug': True, 'names': ALLNAMES, 'desc': f'dataParseCSV on {[v for k, v in glob.items() if k != "hlog"]!r}'}


# ---- CSV: written tables -------------------------------------------------------------------

DATELIKE = ['2024-02-30', '2023-02-29', '2024-13-01', '2024-00-10', '2024-04-31', '2024-01-00', '2024-01-32', '2024-02-30T00:00:00Z', '2024-02-29T24:00:00Z', '2024-02-29T23:60:00Z', '2024-02-29T23:59:61Z',
            '2024-13-29T10:00:00.5+01:00', '1900-02-29', '2100-02-29', '2024-2-29', '2024-02-29T', '2024-02-29T10:00:00', '2024-02-29 10:00:00', '2024-02-29T10:00Z', '24-02-29', '2024/02/29', '2024-02-29x',
            '0000-01-01', '2024-99-99', '9999-12-32', '2023-02-29T10:20:30+00:00', '12024-02-29', '2024-02-29T10:20:30+25:00x']
WORDS = ['a', 'b', 'x y', 'a,b', 'say "hi"', '"', '""', ',', 'line\nbreak', 'cr\r\nlf', ' lead', 'trail ', '', '1', '-2.5', 'true', 'false', '2024-02-29', 'Null', 'NULL', 'nulls', "it's", '#', ';', '\t', 'a\tb', '\u00e9',
         '\U0001f600', 'a\x0cb', 'a\u2028b', 'a\x85', '\x1c', '\\', '\\"', 'None', 'NaN', 'Infinity', '1 2', '1e5x', 'a=b', "'q'", '{"a":1}', '[1,2]', 'true ', ' ', '\n', '\r\n', '\r', '\x0b']
FIRST = ['a', 'x y', 'a,b', 'say "hi"', 'line\nbreak', '"', ',', 'Null', 'True', '\u00e9', '\\', 'None', 'true1', '-', '.', 'e5', '1x', '1e5x', '--1', '1-2', '\x0cq', 'yes', '{"a":1}', '[1]']
NUMBERS = [0., 1., -1., 2.5, -0.5, 100., 1e3, 0.1, 123456.789, 1e-5, 3., 1e15, 0.30000000000000004, 9007199254740991., -273.15, 1e21, 5e-324, 1.7976931348623157e308]


def number_text(rng, x):
    t = repr(x)
    if x == int(x) and abs(x) < 1e16:
        t = rng.choice([repr(int(x)), repr(int(x)), repr(x), repr(int(x)) + '.00'])
    elif 'e' not in t and rng.random() < 0.3:
        t += '0'
    if 'e' in t and rng.random() < 0.3:
        t = t.replace('e', 'E')
    if x != 0 and rng.random() < 0.1:
        t = f'{x:.17e}'
    return t if float(t) == x else repr(x)


def date_text(rng, v):
    """a UTC wall clock value as text"""
    if (v.hour, v.minute, v.second, v.microsecond) == (0, 0, 0, 0) and rng.random() < 0.5:
        return v.strftime('%Y-%m-%d')
    ms = v.microsecond // 1000
    frac = f'.{ms:03d}' if ms else rng.choice(['', '.0', '.000'])
    if ms and ms % 100 == 0 and rng.random() < 0.5:
        frac = f'.{ms // 100}'
    r = rng.random()
    if r < 0.6:
        return v.strftime('%Y-%m-%dT%H:%M:%S') + frac + rng.choice(['Z', '+00:00', '-00:00'])
    off = rng.choice([60, -60, 330, -570, 14 * 60, -12 * 60, 1, -1])
    w = v + datetime.timedelta(minutes=off)
    return w.strftime('%Y-%m-%dT%H:%M:%S') + frac + f'{"-" if off < 0 else "+"}{abs(off) // 60:02d}:{abs(off) % 60:02d}'


def written(rng):
    """a typed table, its texts (a list of arguments)"""
    nc = rng.choice([1, 2, 3, 4, 5])
    nr = rng.choice([0, 1, 2, 3, 4, 6, 9, 12])
    head = rng.sample(['a', 'a2', 'a3', 'b', 'b c', 'x,y', 'q"q', '', 'l\nm', ' sp', 'null', '1', 'true', '2024-02-29', '\u00e9'], nc)
    quote = rng.random() < 0.3
    cols = []
    for _ in head:
        kind = rng.choice(['number', 'boolean', 'datetime', 'string', 'datelike', 'string', 'null'])
        nulls = rng.random() < 0.5
        null = 'null' if kind in ('string', 'datelike', 'null') or rng.random() < 0.5 else ''
        col = []
        seen = False
        for _ in range(nr):
            if nulls and rng.random() < 0.3 or kind == 'null':
                col.append((None, null))
            elif kind == 'number':
                x = rng.choice(NUMBERS) if rng.random() < 0.7 else rng.uniform(-1e6, 1e6)
                col.append((x, number_text(rng, x)))
            elif kind == 'boolean':
                b = rng.random() < 0.5
                col.append((b, 'true' if b else 'false'))
            elif kind == 'datetime':
                v = datetime.datetime(rng.choice([1, 99, 1899, 1970, 2000, 2024, 2024, 2024, 9999]) or 2024, rng.choice([1, 2, 2, 3, 12]), rng.choice([1, 28, 2, 15]), rng.choice([0, 0, 12, 23]),
                                      0, 0, 0)
                if v.year in (1, 9999):
                    v = v.replace(month=6)
                if rng.random() < 0.5:
                    v = v.replace(minute=rng.randrange(60), second=rng.randrange(60), microsecond=1000 * rng.choice([0, 1, 500, 999, 120]))
                if v.year < 1000:
                    v = v.replace(year=1000 + v.year)
                col.append((v, date_text(rng, v)))
            elif kind == 'datelike':
                t = rng.choice(DATELIKE) if not seen or rng.random() < 0.7 else rng.choice(['2024-02-29', '2024-02-29T10:20:30Z', 'a', '1'])
                col.append((t, t))
                seen = True
            else:
                t = rng.choice(WORDS) if seen else rng.choice(FIRST)
                col.append((t, t))
                seen = True
        if all(v is None for v, _ in col):
            col = [(None, 'null')] * nr
        cols.append(col)

    def cell(text, is_str):
        if quote or is_str and (text == '' or text[0] == ' ' or any(c in text for c in '",\r\n')) or rng.random() < 0.1:
            return '"' + text.replace('"', '""') + '"'
        return text
    sep = rng.choice([',', ',', ', '])
    eol = rng.choice(['\n', '\n', '\r\n'])
    lines = [sep.join(cell(h, True) for h in head)]
    for r in range(nr):
        line = sep.join(cell(c[r][1], c[r][0] is not None) for c in cols)
        lines.append(line if line else '""')
    cuts = sorted(rng.sample(range(1, len(lines)), min(len(lines) - 1, rng.choice([0, 0, 0, 1, 2]))))
    parts = [lines[a:b] for a, b in zip([0] + cuts, cuts + [len(lines)])]
    args = [eol.join(part) + (eol if rng.random() < 0.5 else '') for part in parts]
    return {'hd': head, 'rows': [[c[r][0] for c in cols] for r in range(nr)], 'args': args}


WRITER = """\
function csvCell(v):
    t = stringNew(v)
    return '"' + stringReplace(t, '"', '""') + '"'
endfunction

function csvLine(cells):
    out = arrayNew()
    for c in cells:
        arrayPush(out, csvCell(c))
    endfor
    return arrayJoin(out, ',')
endfunction

lines = arrayNew(csvLine(hd))
for row in rows:
    arrayPush(lines, csvLine(row))
endfor
nl = stringFromCharCode(13, 10)
if how == 0:
    return dataParseCSV(arrayJoin(lines, nl))
elif how == 1:
    return dataParseCSV(arrayJoin(lines, nl) + nl, null)
endif
first = arrayShift(lines)
return dataParseCSV(first, arrayJoin(lines, stringFromCharCode(10)))
"""
ZONES = ['UTC', 'America/New_York', 'Asia/Kolkata', 'Pacific/Auckland', 'America/St_Johns', 'Asia/Kathmandu']


def script_written(rng):
    """values that a script writes with their own texts"""
    t = written(rng)
    for row in t['rows']:
        for c, v in enumerate(row):
            if isinstance(v, datetime.datetime):
                row[c] = datetime.datetime(1970 + v.year % 60, v.month, v.day, 4 + v.hour % 16, v.minute, v.second, v.microsecond)
    t['args'] = []
    t['tz'] = rng.choice(ZONES)
    t['how'] = rng.choice([0, 1, 2]) if t['rows'] else 0
    return t


def observe(t):
    b = runner.bs()
    local = 'tz' in t
    if local:
        os.environ['TZ'] = t['tz']
        time.tzset()
    try:
        res = {'k': 'ok', 'v': ['z'], 'h': []}
        try:
            if local:
                script = b['bare'].parse_script(WRITER)
                result = b['bare'].execute_script(script, {'globals': {'hd': list(t['hd']), 'rows': [list(r) for r in t['rows']], 'how': t['how']}})
            elif t.get('validate'):
                # the exported function on a table of texts
                result = [dict(r) for r in t['texts']]
                b['bare'].validate_data(result, True)
            else:
                glob = {f't{i}': a for i, a in enumerate(t['args'])}
                result = b['bare'].execute_script({'statements': [s_return(call('dataParseCSV', *[var(f't{i}') for i in range(len(t['args']))]))]}, {'globals': glob})
        except core.Hang:
            raise
        except Exception:  # pylint: disable=broad-except
            res['k'] = 'x'
            result = None
        e = enc.Enc()
        res['v'] = e.val(result)
        res['h'] = e.heap
        return {'hd': [enc.cps(h) for h in t['hd']], 'rows': [[enc.Enc().val(v) for v in r] for r in t['rows']], 'args': [enc.cps(a) for a in t['args']], 'res': res, 'local': local}
    finally:
        if local:
            os.environ['TZ'] = 'UTC'
            time.tzset()


def written_tables(rep, n):
    tables = []
    for i in range(n):
        rng = rng_for(core.SEED, 'C19w', i)
        tables.append(script_written(rng) if i % 4 == 3 else written(rng))
    results = core.pmap(observe, tables)
    recs = []
    which = []
    for i, (status, value) in enumerate(results):
        if status == 'ok':
            recs.append(value)
            which.append(i)
        elif status != 'skip':
            rep.violation(f'csv-written: {status}: {tables[i]!r}'[:600], {'table': repr(tables[i])})
    rng = rng_for(core.SEED, 'C19wc')
    can = []
    tries = 0
    while recs and len(can) < 30 and tries < 600:
        tries += 1
        k = rng.randrange(len(recs))
        t = {**recs[k], 'res': enc_copy(recs[k]['res'])}
        cells = [c for c in t['res']['h'] if c[0] == 'o' and c[1]]
        if not cells:
            continue
        kind = tries % 4
        if kind == 0:
            p = rng.choice(rng.choice(cells)[1])
            p[1] = ['s', [63]] if p[1] != ['s', [63]] else ['z']
        elif kind == 1:
            rng.choice(cells)[1].pop()
        elif kind == 2:
            p = rng.choice(rng.choice(cells)[1])
            p[0] = p[0] + [63]
        else:
            t['res']['v'] = ['z']
        can.append((k, t))
    verdicts = core.validate('Trace_Csv', recs + [t for _, t in can], weight=lambda r: 5 + sum(len(a) for a in r['args']))
    for k, i in enumerate(which):
        clause = verdicts[k][0]
        if clause.startswith('the-harness'):
            raise core.MachineryError(f'csv-written: {tables[i]!r}')
        if clause:
            rep.violation(f'csv-written: {clause}: {tables[i]!r}'[:600], {'table': repr(tables[i]), 'record': recs[k], 'clause': clause})
    for c, (k, t) in enumerate(can):
        rep.canaries += 1
        if not verdicts[k][0] and not verdicts[len(recs) + c][0]:
            rep.canaries_missed.append(('csv-written', repr(tables[which[k]])[:300]))
    rep.count('written_tables', len(recs))
    rep.samples.append(repr(tables[0])[:400])


def enc_copy(x):
    return [enc_copy(y) for y in x] if isinstance(x, list) else {k: enc_copy(v) for k, v in x.items()} if isinstance(x, dict) else x


EFFECTS = """function tick():
    return arrayShift(queue)
endfunction
function last(x...):
    arrayPush(seen, x)
    return arrayLength(seen)
endfunction
function flip():
    systemGlobalSet('state', !state)
    return state
endfunction
"""
EFFECT_EXPRS = {'tick()': call('tick'), 'flip()': call('flip'), 'last()': call('last'), 'last(a)': call('last', var('a')), 'state': var('state'), 'a': var('a'),
                'tick() + 1': binary('+', call('tick'), num(1.)), 'if(flip(), a, tick())': call('if', call('flip'), var('a'), call('tick')),
                '!flip()': unary('!', call('flip')), 'tick() == a': binary('==', call('tick'), var('a')), "hlog('row', a)": call('hlog', str_('row'), var('a')),
                "'x'": str_('x'), '1': num(1.), 'missing': var('missing')}


def effect_cases(n):
    """expressions whose value changes from row to row although they read no field: once for every row, in order"""
    for i in range(n):
        rng = rng_for(core.SEED, 'C19', 'effect', i)
        rows = lambda k: [{'a': rng.choice([0, 1, 2., None, 'x'])} for _ in range(k)]   # noqa
        glob = {'t': rows(rng.choice([0, 1, 2, 3, 5])), 'u': rows(rng.choice([1, 2, 3])), 'queue': [rng.choice([0, 1, 2, 'x', None, True]) for _ in range(rng.choice([2, 6, 12]))],
                'seen': [], 'state': rng.random() < 0.5, 'hlog': Host('hlog'), 'vars': rng.choice([{}, {'a': 9}, {'state': 'v'}, {'b': 1}])}
        lines = [EFFECTS]
        for k in range(rng.choice([1, 2, 2])):
            e, f = (rng.choice(list(EFFECT_EXPRS)).replace("'", "\\'") for _ in range(2))
            extra = rng.choice(['', '', ', vars', ', null'])
            c = rng.choice([f"dataCalculatedField(t, 'b', '{e}'{extra})", f"dataCalculatedField(t, 'a', '{e}'{extra})", f"dataFilter(t, '{e}'{extra})",
                            f"dataJoin(t, u, '{e}')", f"dataJoin(t, u, '{e}', '{f}', {rng.choice(['true', 'false'])}{extra})"])
            lines += [f'q{k} = {c}', f'hlog(q{k}, t, queue, seen, state)']
        yield {'text': '\n'.join(lines), 'glob': glob, 'real_lim': 0, 'lim': 0, 'exprs': EFFECT_EXPRS, 'names': ['a', 'b', 'a2', 'state', 'queue', 'seen']}


def offset_cases(n):
    """statistics of values far from zero and near each other: their mean and squares are exact, a difference of sums of squares is not"""
    for i in range(n):
        rng = rng_for(core.SEED, 'C19', 'offset', i)
        mid = float(rng.randrange(1 << 26, 1 << 29) * rng.choice([1, 1, -1]))
        ds = [rng.choice([1., 2., 3., 8.]) for _ in range(rng.choice([1, 1, 2, 4]))]
        values = [mid + d for d in ds] + [mid - d for d in ds] + [mid] * rng.choice([0, 1])
        rng.shuffle(values)
        glob = {'t': [{'x': v, 'k': 'a'} for v in values], 'hlog': Host('hlog')}
        for f in ('stddev', 'average', 'count', 'min', 'max'):
            glob['m_' + f] = {'categories': ['k'], 'measures': [{'field': 'x', 'function': f}]}
        yield {'text': '\n'.join(f'hlog(dataAggregate(t, m_{f}))' for f in ('stddev', 'average', 'count', 'min', 'max')), 'glob': glob, 'real_lim': 0, 'lim': 0}


def check(rep):
    quick = core.TIER == 'quick'
    core.require_model('MC_Tables', None if quick else 'MC_Tables_deep.cfg')
    core.require_model('MC_Csv', None if quick else 'MC_Csv_deep.cfg')
    for bad in ('MC_Tables_bytext', 'MC_Tables_notaken', 'MC_Tables_unstable'):
        core.require_counterexample('MC_Tables', bad + '.cfg')
    core.require_counterexample('MC_Csv', 'MC_Csv_noquote.cfg')
    machine.run_and_validate(rep, list(script_cases(1000 if quick else 20000)), 'tables', min_ok=0.6)
    machine.run_and_validate(rep, list(direct_cases(1000 if quick else 16000)), 'exported', min_ok=0.6, kinds=['result', 'exc', 'global', 'global-extra'])
    machine.run_and_validate(rep, list(csv_cases(500 if quick else 8000)), 'csv-texts', min_ok=0.25)
    machine.run_and_validate(rep, list(effect_cases(400 if quick else 6000)), 'row effects', min_ok=0.5)
    machine.run_and_validate(rep, list(offset_cases(12 if quick else 400)), 'offset', min_ok=0.9)
    written_tables(rep, 1200 if quick else 24000)
