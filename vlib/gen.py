"""Seeded generation of BareScript programs (as structured statement trees) and their source text"""
import datetime
import random
import re

PREC = {'**': 7, '*': 6, '/': 6, '%': 6, '+': 5, '-': 5, '<=': 4, '<': 4, '>=': 4, '>': 4, '==': 3, '!=': 3, '&&': 2, '||': 1}
OPS = list(PREC)


# ---- expression models --------------------------------------------------------------------

def num(x):
    return {'number': x}


def str_(s):
    return {'string': s}


def var(n):
    return {'variable': n}


def call(n, *args):
    return {'function': {'name': n, 'args': list(args)}}


def binary(op, left, right):
    return {'binary': {'op': op, 'left': left, 'right': right}}


def unary(op, e):
    return {'unary': {'op': op, 'expr': e}}


def group(e):
    return {'group': e}


def atom(e):
    """e as an operand: grouped when it is a binary expression"""
    return group(e) if 'binary' in e else e


def num_text(x):
    if x == int(x) and abs(x) < 1e15:
        return str(int(x))
    t = repr(float(x))
    return t


def str_text(s, quote="'"):
    return quote + s.replace('\\', '\\\\').replace(quote, '\\' + quote) + quote


def expr_text(e):
    (k, v), = e.items()
    if k == 'number':
        return num_text(v)
    if k == 'string':
        return str_text(v)
    if k == 'variable':
        if v.replace('_', 'a').isalnum() and v.isascii() and not v[0].isdigit():
            return v
        return '[' + v.replace('\\', '\\\\').replace(']', '\\]') + ']'
    if k == 'function':
        return v['name'] + '(' + ', '.join(expr_text(a) for a in v.get('args', [])) + ')'
    if k == 'binary':
        return expr_text(v['left']) + ' ' + v['op'] + ' ' + expr_text(v['right'])
    if k == 'unary':
        return v['op'] + expr_text(v['expr'])
    return '(' + expr_text(v) + ')'


# ---- statements -----------------------------------------------------------------------------

def s_expr(e, name=None):
    return {'expr': {'name': name, 'expr': e}} if name else {'expr': {'expr': e}}


def s_if(branches, else_=None):
    return {'if': {'branches': branches, 'else': else_}}


def s_while(e, body):
    return {'while': {'expr': e, 'statements': body}}


def s_for(value, index, e, body):
    res = {'value': value, 'expr': e, 'statements': body}
    if index:
        res['index'] = index
    return {'for': res}


def s_return(e=None):
    return {'return': {'expr': e} if e is not None else {}}


def s_func(name, args, body, last=False):
    f = {'name': name, 'statements': body}
    if args:
        f['args'] = list(args)
    if last:
        f['lastArgArray'] = True
    return {'function': f}


def render(stmts, indent=0, out=None):
    """Source lines of structured (and jump) statements"""
    out = [] if out is None else out
    pad = '    ' * indent
    for s in stmts:
        (k, v), = s.items()
        if k == 'expr':
            text = expr_text(v['expr'])
            if not v.get('name') and re.match(r'\w+\s*=', text):
                text = '(' + text + ')'     # not an assignment
            out.append(pad + (v['name'] + ' = ' if v.get('name') else '') + text)
        elif k == 'if':
            for i, (c, b) in enumerate(v['branches']):
                out.append(pad + ('if ' if i == 0 else 'elif ') + expr_text(c) + ':')
                render(b, indent + 1, out)
            if v.get('else') is not None:
                out.append(pad + 'else:')
                render(v['else'], indent + 1, out)
            out.append(pad + 'endif')
        elif k == 'while':
            out.append(pad + 'while ' + expr_text(v['expr']) + ':')
            render(v['statements'], indent + 1, out)
            out.append(pad + 'endwhile')
        elif k == 'for':
            out.append(pad + 'for ' + v['value'] + (', ' + v['index'] if v.get('index') else '') + ' in ' + expr_text(v['expr']) + ':')
            render(v['statements'], indent + 1, out)
            out.append(pad + 'endfor')
        elif k in ('break', 'continue'):
            out.append(pad + k)
        elif k == 'return':
            out.append(pad + 'return' + (' ' + expr_text(v['expr']) if 'expr' in v else ''))
        elif k == 'function':
            out.append(pad + 'function ' + v['name'] + '(' + ', '.join(v.get('args', [])) + ('...' if v.get('lastArgArray') else '') + '):')
            render(v['statements'], indent + 1, out)
            out.append(pad + 'endfunction')
        elif k == 'label':
            out.append(pad + v + ':')
        elif k == 'jump':
            out.append(pad + ('jumpif (' + expr_text(v['expr']) + ') ' if 'expr' in v else 'jump ') + v['label'])
        elif k == 'include':
            for inc in v['includes']:
                out.append(pad + 'include ' + ('<' + inc['url'] + '>' if inc.get('system') else str_text(inc['url'])))
    return out


def text_of(stmts):
    return '\n'.join(render(stmts)) + '\n'


def count_stmts(stmts):
    n = 0
    for s in stmts:
        (k, v), = s.items()
        n += 1
        if k == 'if':
            n += sum(count_stmts(b) for _, b in v['branches']) + count_stmts(v.get('else') or [])
        elif k in ('while', 'for', 'function'):
            n += count_stmts(v['statements'])
    return n


# ---- random programs ----------------------------------------------------------------------------

class ProgGen:
    """Random terminating structured programs. Every construct is observable: hlog() probes record the order of
    evaluation, conditions included"""

    def __init__(self, rng, max_depth=3, size=24, features=()):
        self.rng = rng
        self.max_depth = max_depth
        self.left = size
        self.serial = 0
        self.vars = ['a', 'b', 'c', 's', 'arr', 'obj']
        self.funcs = []             # (name, nargs, last)
        self.features = set(features)

    def pick(self, xs):
        return xs[self.rng.randrange(len(xs))]

    def chance(self, p):
        return self.rng.random() < p

    def fresh(self, prefix):
        self.serial += 1
        return f'{prefix}{self.serial}'

    # -- expressions
    def literal(self):
        r = self.rng.random()
        if r < 0.5:
            return num(float(self.pick([0, 1, 2, 3, 4, 5, 7, 10])))
        if r < 0.6:
            return num(self.pick([0.5, 2.25, 1.5]))
        if r < 0.8:
            return str_(self.pick(['', 'x', 'ab', 'k', 'a\'b']))
        if r < 0.95:
            return var(self.pick(['true', 'false', 'null']))
        return unary('-', num(float(self.pick([1, 2, 3]))))

    def expr(self, depth=2, names=None):
        names = names or self.vars
        r = self.rng.random()
        if depth <= 0 or r < 0.25:
            return self.literal() if self.chance(0.45) else var(self.pick(names))
        if r < 0.5:
            op = self.pick(['+', '-', '*', '+', '<', '<=', '==', '!=', '>', '>=', '&&', '||', '%', '/'])
            return binary(op, atom(self.expr(depth - 1, names)), atom(self.expr(depth - 1, names)))
        if r < 0.58:
            return unary(self.pick(['!', '-']), atom(self.expr(depth - 1, names)))
        if r < 0.66:
            return call('if', *[self.expr(depth - 1, names) for _ in range(self.pick([2, 3, 3]))])
        if r < 0.76:
            return call('hlog', self.expr(depth - 1, names))
        if r < 0.86 and self.funcs:
            name, nargs, _ = self.pick(self.funcs)
            n = max(0, nargs + self.pick([-1, 0, 0, 0, 1]))
            return call(name, *[self.expr(depth - 1, names) for _ in range(n)])
        return self.libcall(depth, names)

    def libcall(self, depth, names):
        e = lambda: self.expr(depth - 1, names)   # noqa
        return self.pick([
            lambda: call('arrayLength', var('arr')),
            lambda: call('arrayGet', var('arr'), self.pick([num(0.), num(1.), num(5.), e()])),
            lambda: call('arrayNew', e(), e()),
            lambda: call('objectGet', var('obj'), str_('k'), e()),
            lambda: call('stringNew', e()),
            lambda: call('mathMax', e(), e()),
            lambda: call('systemType', e()),
            lambda: call('objectNew', str_('k'), e()),
            lambda: call('arrayCopy', var('arr')),
        ])()

    def cond(self, names=None):
        """a condition: often with a logging probe"""
        e = self.expr(2, names)
        return call('hlog', e) if self.chance(0.5) else e

    # -- statements
    def block(self, depth, in_func, loops, names):
        n = self.rng.choice([0, 1, 1, 2, 2, 3, 4]) if depth < self.max_depth else self.rng.choice([0, 1, 1, 2])
        out = []
        for _ in range(n):
            if self.left <= 0:
                break
            out.extend(self.stmt(depth, in_func, loops, names))
        return out

    def stmt(self, depth, in_func, loops, names):
        self.left -= 1
        r = self.rng.random()
        deep = depth < self.max_depth
        if r < 0.2:
            name = self.pick(['a', 'b', 'c', 's'])
            return [s_expr(self.expr(2, names), name)]
        if r < 0.32:
            return [s_expr(call('systemLog', binary('+', str_(self.fresh('L')), atom(self.expr(1, names)))))]
        if r < 0.38:
            return [s_expr(self.pick([
                lambda: call('arrayPush', var('arr'), self.expr(1, names)),
                lambda: call('objectSet', var('obj'), str_(self.pick(['k', 'm'])), self.expr(1, names)),
                lambda: call('hlog', self.expr(1, names), self.expr(1, names)),
                lambda: call('arraySet', var('arr'), num(float(self.pick([0, 1, 9]))), self.expr(1, names)),
                lambda: self.expr(2, names),
            ])())]
        if r < 0.6 and deep:
            nb = self.pick([1, 1, 2, 2, 3, 4])
            branches = [(self.cond(names), self.block(depth + 1, in_func, loops, names)) for _ in range(nb)]
            return [s_if(branches, self.block(depth + 1, in_func, loops, names) if self.chance(0.5) else None)]
        if r < 0.75 and deep:
            return self.loop_while(depth, in_func, loops, names)
        if r < 0.88 and deep:
            return self.loop_for(depth, in_func, loops, names)
        if r < 0.93 and loops:
            return [self.guarded({self.pick(['break', 'continue']): {}}, names)] if self.chance(0.7) else \
                [{self.pick(['break', 'continue']): {}}]
        if r < 0.96:
            ret = s_return(self.expr(2, names) if self.chance(0.8) else None)
            if in_func or self.chance(0.25):
                return [self.guarded(ret, names)] if self.chance(0.7) else [ret]
        if in_func is None and 'blockfunc' in self.features and self.funcs is not None and self.left > 4:
            return self.function(depth)
        return [s_expr(call('hlog', str_(self.fresh('p')), self.expr(1, names)))]

    def guarded(self, s, names):
        return s_if([(self.cond(names), [s])])

    def loop_while(self, depth, in_func, loops, names):
        w = self.fresh('w')
        k = self.pick([0, 1, 2, 3])
        test = binary('<', var(w), num(float(k)))
        inc = s_expr(binary('+', var(w), num(1.)), w)
        style = self.rng.random()
        if style < 0.5:
            cond = self.pick([test, call('hlog', test), binary('&&', group(test), atom(self.cond(names))),
                              binary('&&', group(test), call('hlog', var(w)))])
            if self.chance(0.2):
                # the negative of a condition
                cond = unary('!', group(unary('!', group(cond))))
            body = [inc] + self.block(depth + 1, in_func, loops + ['while'], names + [w])
        elif style < 0.7:
            # the test changes the variable
            cond = binary('<', call('hlog', call('arrayLength', var(w))), num(float(k)))
            body = [s_expr(call('arrayPush', var(w), num(1.)))] + self.block(depth + 1, in_func, loops + ['while'], names)
            return [s_expr(call('arrayNew'), w), s_while(cond, body)]
        else:
            cond = var('true')
            body = [inc, s_if([(binary('>', var(w), num(float(k))), [{'break': {}}])])] + \
                self.block(depth + 1, in_func, loops + ['while'], names + [w])
        return [s_expr(num(0.), w), s_while(cond, body)]

    def loop_for(self, depth, in_func, loops, names):
        v = self.fresh('v')
        ix = self.fresh('i') if self.chance(0.6) else None
        if self.chance(0.15):
            v = self.pick(['a', 'b'])
        src = self.pick([
            lambda: call('arrayNew', *[self.expr(1, names) for _ in range(self.pick([0, 1, 2, 3]))]),
            lambda: call('hlog', call('arrayNew', num(1.), str_('x'), num(2.))),
            lambda: call('arrayCopy', var('arr')),
            lambda: call('arraySlice', var('arr'), num(0.), num(1.)),
            lambda: self.pick([num(5.), str_('abc'), var('null'), var('obj')]) if self.chance(0.3) else call('arrayNew', num(3.)),
        ])
        if 'arrvar' in self.features and self.chance(0.15):
            # the array is evaluated once: its variable may be assigned in the body
            src = lambda: var(self.pick(['arr2', 'av']))   # noqa
        src = src()
        body = self.block(depth + 1, in_func, loops + ['for'], names + [v] + ([ix] if ix else []))
        if src in ({'variable': 'arr2'}, {'variable': 'av'}):
            body.append(s_expr(self.pick([call('arrayNew', num(8.), num(9.)), call('arraySlice', src, num(1.)), num(5.)]), src['variable']))
        if self.chance(0.4):
            body.insert(0, s_expr(call('hlog', var(v), *([var(ix)] if ix else []))))
        return [s_for(v, ix, src, body)]

    def function(self, depth=0):
        name = self.fresh('fn')
        nargs = self.pick([0, 1, 2, 3])
        last = nargs > 0 and self.chance(0.25)
        args = [f'p{i}' for i in range(nargs)]
        if nargs and self.chance(0.2):
            args[0] = 'a'
        names = self.vars + args
        body = self.block(max(depth, 1), name, [], names)
        body.append(s_return(self.expr(2, names)) if self.chance(0.7) else s_expr(self.expr(1, names), self.pick(['a', 'b'])))
        if self.chance(0.15) and nargs and not last and args[0] != 'a':
            # recursion with a decreasing argument
            body.insert(0, s_if([(binary('&&', group(binary('>', var(args[0]), num(0.))), binary('<=', var(args[0]), num(3.))),
                                  [s_expr(call(name, binary('-', var(args[0]), num(1.))), 'r')])]))
        self.funcs.append((name, nargs, last))
        return [s_func(name, args, body, last)]

    def program(self):
        out = []
        for _ in range(self.pick([0, 1, 1, 2, 3])):
            save = self.left
            self.left = min(self.left, 10)
            out.extend(self.function())
            self.left = save - 4
        for _ in range(3):
            out.extend(self.block(0, None, [], list(self.vars)))
        if self.chance(0.3):
            out.append(s_return(self.expr(2)))
        return out


def base_globals(rng):
    """caller globals for the random programs"""
    from .runner import Host
    arr = [1.0, 'x', 2]
    res = {'hlog': Host('hlog'), 'a': rng.choice([0, 1, 2.5, 'q', None, True]), 'b': rng.choice([3, -1, 0.5, '', False]),
           'c': rng.choice([None, 4, 'zz']), 's': 'str', 'arr': arr, 'obj': {'k': arr, 'z': 1}, 'arr2': [3, 'q', None, 1.0], 'av': ['m', 2]}
    if rng.random() < 0.4:
        # any type of value
        res[rng.choice('abc')] = rng.choice([
            lambda: datetime.datetime(2024, 2, 29, 12, 30, 0, 5000), lambda: re.compile('a+'), lambda: Host('hlog'), lambda: [], lambda: {},
            lambda: [[], [1]], lambda: {'a': None}, lambda: 1e300, lambda: -0.0, lambda: 2.0 ** 60, lambda: True, lambda: None])()
    return res


def rng_for(seed, *parts):
    return random.Random(repr((seed,) + parts))
