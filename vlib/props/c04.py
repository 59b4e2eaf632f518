"""C04 scoping, calling convention and host globals"""
import itertools

from .. import core, gen, machine, pools
from ..gen import binary, call, num, rng_for, s_expr, s_func, s_if, s_return, str_, var
from ..runner import Host, Lib
from .c03 import ALIASES

# ---- (a) one name bound in every combination of places, used in every way --------------------

MATRIX_NAMES = ['q', 'arrayLength', 'len', 'mathMax', 'max', 'true1']
HOSTS = {'none': None, 'value': 41, 'host': Host('hargs'), 'lib': Lib('mathAbs'), 'null': 'NULL', 'array': [7, 8]}


def probes(name, tag):
    """use the name in every way that does not end the program"""
    return [s_expr(call('hlog', str_(tag), var(name))),
            s_expr(call('hlog', call('systemGlobalGet', str_(name), str_('dflt')))),
            s_expr(call('hlog', call('systemType', var(name))))]


def risky(name, tag):
    """calls: an unbound name ends the run"""
    return [s_expr(call('hlog', str_(tag), call(name, num(3.), num(5.))))]


def matrix_cases():
    for name, host, define, assign, local, where in itertools.product(
            MATRIX_NAMES, HOSTS, ['none', 'before', 'after', 'twice'], ['none', 'value', 'func', 'set'], ['none', 'param', 'assign', 'late', 'rest', 'setglobal'],
            ['top', 'func', 'callback', 'data']):
        body = []
        args = ['x']
        last = False
        if local == 'param':
            args = [name]
        elif local == 'rest':
            args = ['x', name]
            last = True
        elif local == 'assign':
            body.append(s_expr(str_('loc'), name))
        elif local == 'setglobal':
            body.append(s_expr(call('systemGlobalSet', str_(name), str_('gset'))))
        body += probes(name, 'in')
        if where == 'func':
            body += risky(name, 'call-in')
        if local == 'late':
            body.append(s_expr(str_('late'), name))
            body += probes(name, 'later')
        body.append(s_return(var(name)))
        f = s_func('f', args, body, last)
        defs = {'before': [s_func(name, ['u', 'v'], [s_return(binary('+', var('u'), var('v')))])],
                'twice': [s_func(name, ['u'], [s_return(var('u'))]), s_func(name, ['u', 'v'], [s_return(call('hlog', var('v'), var('u')))])]}
        stmts = [f] + (defs.get(define, []) if define in defs else []) + probes(name, 'top')
        if assign == 'value':
            stmts.append(s_expr(num(9.), name))
        elif assign == 'func':
            stmts.append(s_expr(var('other'), name))
        elif assign == 'set':
            stmts.append(s_expr(call('systemGlobalSet', str_(name), var('hargs'))))
        stmts += probes(name, 'asg')
        if where == 'callback':
            stmts.append(s_expr(call('hlog', call('arrayIndexOf', call('arrayNew', num(0.), num(1.)), var('f')))))
        elif where == 'data':
            # the expression sees the fields, the variables, then the globals
            stmts.append(s_expr(call('hlog', call('dataFilter', call('arrayNew', call('objectNew', str_('a'), num(1.)),
                                                                     call('objectNew', str_(name), num(0.), str_('a'), num(2.))), str_(name)))))
            stmts.append(s_expr(call('hlog', call('dataFilter', call('arrayNew', call('objectNew', str_('a'), num(1.)),
                                                                     call('objectNew', str_(name), num(0.), str_('a'), num(2.))), str_(name),
                                                  call('objectNew', str_(name), str_('vv'))))))
        else:
            stmts.append(s_expr(call('hlog', call('f', num(1.), num(2.), num(3.)))))
        stmts += probes(name, 'end')
        if where == 'top':
            stmts += risky(name, 'call')
        if define == 'after':
            stmts.append(s_func(name, ['u', 'v'], [s_return(binary('-', var('u'), var('v')))]))
            stmts += probes(name, 'def') + risky(name, 'def')
        glob = {'hlog': Host('hlog'), 'hargs': Host('hargs'), 'other': Lib('mathMin')}
        if host == 'null':
            glob[name] = None
        elif host != 'none':
            glob[name] = HOSTS[host]
        yield {'model': models(stmts), 'glob': glob, 'exprs': {name: var(name)}, 'names': [name], 'debug': True,
               'desc': f'name {name}, host {host}, function {define}, assigned {assign}, local {local}, used {where}'}


def models(stmts):
    return {'statements': stmts}


# ---- (b) every signature with every number of arguments along every call path -----------------

SIGNATURES = [([], False)] + [(list('xyz'[:n]), last) for n in (1, 2, 3) for last in (False, True)] + [(['x', 'x'], False), (['x', 'y', 'x'], True), (['glob', 'f'], False),
                                                                                                        (['len', 'x'], False)]
PATHS = ['direct', 'variable', 'partial', 'partial2', 'hcall', 'find', 'sort', 'data', 'global', 'nested', 'param', 'closure']


def arity_cases():
    for (args, last), n, path, mixed in itertools.product(SIGNATURES, range(6), PATHS, (False, True)):
        if mixed and (n == 0 or path == 'sort'):
            continue
        values = [num(float(i + 1)) for i in range(n)]
        if mixed:
            # arguments of every type, the last one in turn
            every = [call('arrayNew', num(1.)), var('null'), call('arrayNew'), str_('s'), call('objectNew', str_('k'), num(2.)), var('false'), var('hcall')]
            at = len(args) + PATHS.index(path)
            values = [every[(at + i) % len(every)] for i in range(n)]
            values[-1] = every[(n + PATHS.index(path)) % len(every)]
        names = sorted(set(args) | {'x', 'y', 'z', 'glob'})
        body = [s_expr(call('hlog', *[var(a) for a in names]))]
        if args:
            body += [s_expr(call('systemType', var(args[-1])), 't'), s_expr(call('hlog', var('t'), var(args[-1])))]
            body += [s_expr(str_('assigned'), args[0]), s_expr(call('arrayPush', var(args[-1]), str_('pushed')))]
        body += [s_expr(num(77.), 'glob'), s_expr(num(78.), 'fresh'), s_expr(call('hlog', *[var(a) for a in names + ['fresh']]))]
        body.append(s_return(var(args[-1]) if args else var('fresh')))
        f = s_func('f', args, body, last)
        if not last and (n + len(path)) % 3 == 0:
            f['function']['lastArgArray'] = False
        if (n + len(path)) % 4 == 0:
            f['function']['async'] = n % 2 == 0
        stmts = [f]
        exprs = {}
        k = min(n, 2)
        if path == 'direct':
            use = call('f', *values)
        elif path == 'variable':
            stmts.append(s_expr(var('f'), 'v'))
            use = call('v', *values)
        elif path == 'global':
            stmts.append(s_expr(call('systemGlobalGet', str_('f')), 'v'))
            use = call('v', *values)
        elif path == 'partial':
            stmts.append(s_expr(call('systemPartial', var('f'), *values[:k]), 'v'))
            use = call('v', *values[k:]) if k else call('hlog', var('v'))
        elif path == 'partial2':
            stmts.append(s_expr(call('systemPartial', var('f'), num(50.)), 'w'))
            stmts.append(s_expr(call('systemPartial', var('w'), num(60.)), 'v'))
            use = call('v', *values)
        elif path == 'hcall':
            use = call('hcall', var('f'), *values)
        elif path == 'find':
            use = call('arrayIndexOf', call('arrayNew', *values), var('f'))
        elif path == 'sort':
            use = call('arraySort', call('arrayNew', *values), call('systemPartial', var('f'), num(0.)) if n == 5 else var('f'))
        elif path == 'data':
            e = call('f', *([var('p')] + values if values else []))
            use = call('dataFilter', call('arrayNew', call('objectNew', str_('p'), num(1.), str_('x'), str_('row')), call('objectNew', str_('z'), num(2.))), str_(gen.expr_text(e)),
                       *([call('objectNew', str_('y'), str_('vary'))] if n % 2 else []))
            exprs[gen.expr_text(e)] = e
        elif path == 'nested':
            # the caller's locals are not the callee's
            stmts.append(s_func('g', ['x', 'y'], [s_expr(str_('gz'), 'z'), s_expr(call('f', *values), 'r'), s_expr(call('hlog', var('x'), var('y'), var('z'), var('glob'))),
                                                  s_return(var('r'))]))
            use = call('g', str_('gx'), str_('gy'))
        elif path == 'param':
            # the function is a value in a local variable
            stmts.append(s_func('g', ['h', 'x'], [s_expr(call('h', *values), 'z'), s_return(var('z'))]))
            use = call('g', var('f'), str_('gx'))
        else:
            # a function defined when the enclosing one runs
            stmts = [s_func('mk', ['x', 'y'], [f, s_expr(call('hlog', var('x'), var('y'), var('f'))), s_return(call('f', *values))])]
            use = call('mk', str_('mx'))
        stmts += [s_expr(use, 'r'), s_expr(call('hlog', var('r'), var('glob'), var('x'), var('y'), var('z'), var('fresh')))]
        glob = {'hlog': Host('hlog'), 'hcall': Host('hcall'), 'glob': 'G', 'z': 'Z'}
        yield {'model': models(stmts), 'glob': glob, 'exprs': exprs, 'names': ['p', 'x', 'y', 'z'], 'debug': True, 'lim': 3000,
               'desc': f'function f({", ".join(args)}{"..." if last else ""}) called with {n} {"mixed " if mixed else ""}arguments, {path}'}


# ---- (c) random programs in which a few names are everything at once ---------------------------

POOL = ['a', 'b', 'f', 'g', 'len', 'arrayLength', 'mathMax', 'max', 'stringNew', 'x', 'null', 'true', 'false']


class ScopeGen(gen.ProgGen):
    def __init__(self, rng, **kwargs):
        super().__init__(rng, **kwargs)
        self.pool = rng.sample(POOL, rng.choice([3, 4, 6]))
        self.vars = self.pool
        self.funcs = []
        self.exprs = {}

    def libcall(self, depth, names):
        r = self.rng.random()
        n = self.pick(self.pool)
        args = [call('arrayNew', *[self.expr(0, names) for _ in range(self.pick([0, 1, 2]))]) if self.chance(0.15) else self.expr(0, names)
                for _ in range(self.pick([0, 1, 2, 3]))]
        if r < 0.3:
            return call(n, *args)
        if r < 0.42:
            return call('systemPartial', var(n), *args)
        if r < 0.52:
            return call('hcall', var(n), *args)
        if r < 0.6:
            return call('systemGlobalGet', str_(self.pick(self.pool)), *args[:1])
        if r < 0.68:
            return call('systemGlobalSet', str_(self.pick(self.pool)), self.expr(0, names))
        if r < 0.75:
            return call('arrayIndexOf', call('arrayNew', *args), var(n))
        if r < 0.82:
            return call('arrayNew', *args)
        if r < 0.88:
            e = self.pick([var(n), call(n, var('a')), binary('+', var(n), var('b'))])
            text = gen.expr_text(e)
            self.exprs[text] = e
            return call('dataCalculatedField', call('arrayNew', call('objectNew', str_('a'), num(1.)), call('objectNew', str_(n), str_('fld'))), str_('c'), str_(text),
                        *([call('objectNew', str_(self.pick(self.pool)), str_('vv'))] if self.chance(0.5) else []))
        if r < 0.94:
            return call('if', self.expr(0, names), call(n, *args), self.expr(0, names))
        return call('hlog', var(n))

    def body(self, size):
        out = []
        for _ in range(size):
            r = self.rng.random()
            if r < 0.4:
                out.append(s_expr(self.expr(2), self.pick(self.pool)))
            elif r < 0.7:
                out.append(s_expr(call('hlog', *[var(n) for n in self.rng.sample(self.pool, 3)])))
            elif r < 0.8:
                out.append(s_if([(self.expr(1), self.body(1))], self.body(1) if self.chance(0.4) else None))
            else:
                e = self.expr(2)
                # a line "name == ..." is read as an assignment
                out.append(s_expr(gen.group(e) if 'binary' in e and e['binary']['op'] == '==' else e))
        return out

    def define(self, name):
        nargs = self.pick([0, 1, 1, 2, 3])
        args = self.rng.sample(self.pool, min(nargs, len(self.pool)))
        body = self.body(self.pick([1, 2, 3]))
        if self.chance(0.15):
            body.insert(self.rng.randrange(len(body) + 1), s_func(self.pick(self.pool), self.rng.sample(self.pool, 1), self.body(1)))
        body.append(s_return(self.expr(1)))
        return s_func(name, args, body, bool(args) and self.chance(0.3))

    def program(self):
        fns = self.rng.sample(self.pool, min(len(self.pool), self.pick([1, 2, 3, 4])))
        out = [self.define(n) for n in fns]
        for _ in range(self.pick([2, 3, 4])):
            out += self.body(2)
            if self.chance(0.3):
                out.append(self.define(self.pick(self.pool)))
        return out


def random_cases(n):
    for i in range(n):
        rng = rng_for(core.SEED, 'C04', i)
        g = ScopeGen(rng)
        stmts = g.program()
        glob = {'hlog': Host('hlog'), 'hcall': Host('hcall')}
        for name in g.pool:
            if rng.random() < 0.5:
                glob[name] = rng.choice([1, 'str', [1, 2], {'a': 1}, Host('hargs'), Host('hlog'), Lib('mathMax'), Lib('arrayNew'), True, None])
        case = {'glob': glob, 'exprs': g.exprs, 'names': POOL + ['c', 'hlog'], 'lim': rng.choice([60, 150, 400]), 'debug': rng.random() < 0.5}
        # the statement count is the parsed model's
        case['text'] = gen.text_of(flatten(stmts))
        yield case


def flatten(stmts):
    """function definitions cannot be nested in source text: hoist them"""
    out = []

    def strip(body):
        res = []
        for s in body:
            if 'function' in s:
                out.append(s_func(s['function']['name'], s['function'].get('args', []), strip(s['function']['statements']), s['function'].get('lastArgArray', False)))
            elif 'if' in s:
                res.append(s_if([(c, strip(b)) for c, b in s['if']['branches']], None if s['if']['else'] is None else strip(s['if']['else'])))
            else:
                res.append(s)
        return res
    for s in stmts:
        if 'function' in s:
            f = s['function']
            body = strip(f['statements'])
            out.append(s_func(f['name'], f.get('args', []), body, f.get('lastArgArray', False)))
        else:
            out.extend(strip([s]))
    return out


# ---- (d) the names of the built-in expression functions ------------------------------------------

def builtin_cases():
    bound = {'absent': 0, 'value': 5, 'null': None, 'host': Host('hargs'), 'lib': Lib('arrayNew')}
    for name in ALIASES + ['now', 'rand', 'today', 'arrayLength']:
        for (g, l), builtins, inj in itertools.product(itertools.product(bound, bound), (True, False), (False, True)):
            # in turn, not the whole product for every name
            if core.TIER == 'quick' and sum(map(ord, name + g + l)) % 3 != (core.SEED + 2 * builtins + inj) % 3:
                continue
            glob = {'hlog': Host('hlog'), 'hargs': Host('hargs')}
            loc = {'u': 1}
            if g != 'absent':
                glob[name] = bound[g]
            if l != 'absent':
                loc[name] = bound[l]
            yield {'expr': call('hlog', var(name), var('u'), call(name, str_('2'), num(1.))), 'glob': glob, 'locals': loc if l != 'absent' or g != 'null' else None,
                   'builtins': builtins, 'inj': inj, 'debug': True, 'names': [name], 'unk': name in ('now', 'rand', 'today'),
                   'desc': f'{name}: global {g}, local {l}, builtins {builtins}, library {inj}'}


def check(rep):
    quick = core.TIER == 'quick'
    core.require_model('MC_Scope', None if quick else 'MC_Scope_deep.cfg')
    rng = rng_for(core.SEED, 'C04m')
    cases = list(matrix_cases())
    machine.run_and_validate(rep, rng.sample(cases, 1500) if quick else cases, 'binding-matrix', min_ok=0.9)
    machine.run_and_validate(rep, list(arity_cases()), 'arity', min_ok=0.8)
    machine.run_and_validate(rep, list(builtin_cases()), 'builtin-names', min_ok=0.8)
    machine.run_and_validate(rep, list(random_cases(2500 if quick else 30000)), 'collisions', min_ok=0.6)
