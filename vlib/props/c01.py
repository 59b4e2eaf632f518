"""C01 structured control flow runs with its source-level meaning"""
import datetime
import itertools
import re

from .. import core, gen, machine
from ..gen import atom, binary, call, group, num, rng_for, s_expr, s_for, s_func, s_if, s_return, s_while, str_, unary, var
from ..runner import Host

SHAPES = ['if', 'ifelse-then', 'ifelse-else', 'elif', 'elif-else', 'while', 'for', 'forix']
LEAVES = ['log', 'break', 'continue', 'return', 'break-if', 'continue-if']


def probe(name):
    """counts and logs"""
    return s_expr(call('hlog', str_(name), call('tick')))


def parity(k):
    return call('hlog', binary('==', binary('%', call('tick'), num(2.)), num(float(k))))


def nest(shape, level, inner):
    before = probe(f'b{level}')
    after = probe(f'a{level}')
    body = [before] + inner + [after]
    if shape == 'if':
        return [s_if([(parity(0), body)]), probe(f'x{level}')]
    if shape == 'ifelse-then':
        return [s_if([(parity(0), body)], [probe(f'e{level}')]), probe(f'x{level}')]
    if shape == 'ifelse-else':
        return [s_if([(parity(0), [probe(f'e{level}')])], body), probe(f'x{level}')]
    if shape == 'elif':
        return [s_if([(parity(0), [probe(f'e{level}')]), (parity(1), body)]), probe(f'x{level}')]
    if shape == 'elif-else':
        return [s_if([(parity(0), [probe(f'e{level}')]), (parity(0), [probe(f'f{level}')])], body), probe(f'x{level}')]
    if shape == 'while':
        w = f'w{level}'
        return [s_expr(num(0.), w),
                s_while(call('hlog', binary('<', var(w), num(3.))), [s_expr(binary('+', var(w), num(1.)), w)] + body),
                s_expr(call('hlog', str_(w), var(w)))]
    v = f'v{level}'
    ix = f'i{level}' if shape == 'forix' else None
    src = call('hlog', call('arrayNew', num(7.), str_('s'), var('null')))
    return [s_for(v, ix, src, [s_expr(call('hlog', str_(v), var(v), *([var(ix)] if ix else [])))] + body),
            s_expr(call('hlog', str_(v), var(v), *([var(ix)] if ix else [])))]


def shape_cases():
    """every nesting of the constructs to depth 3 around every kind of leaf, at the top level and inside a function"""
    tick = s_func('tick', [], [s_expr(call('arrayPush', var('ticks'), num(0.))), s_return(call('arrayLength', var('ticks')))])
    for depth in (1, 2, 3):
        for shapes in itertools.product(SHAPES, repeat=depth):
            loops = any(s in ('while', 'for', 'forix') for s in shapes)
            for leaf in LEAVES:
                if leaf.split('-')[0] in ('break', 'continue') and not loops:
                    continue
                for infunc in (False, True):
                    if depth == 3 and infunc == (hash_of(shapes, leaf) % 2 == 0):
                        continue
                    if leaf == 'log':
                        inner = [probe('leaf')]
                    elif leaf == 'return':
                        inner = [s_if([(parity(1), [s_return(call('tick'))])])]
                    elif leaf.endswith('-if'):
                        inner = [s_if([(parity(1), [{leaf[:-3]: {}}])])]
                    else:
                        inner = [{leaf: {}}]
                    body = inner
                    for level in range(depth - 1, -1, -1):
                        body = nest(shapes[level], level, body)
                    if infunc:
                        ast = [tick, s_func('main', ['p'], body + [s_return(str_('end'))]),
                               s_expr(call('hlog', call('main', num(1.)))), s_return(call('main', num(2.)))]
                    else:
                        ast = [tick] + body + [s_return(str_('end'))]
                    yield {'text': gen.text_of(ast), 'ast': ast, 'glob': {'hlog': Host('hlog'), 'ticks': []}, 'real_lim': 100000}


def hash_of(*parts):
    h = 0
    for c in repr(parts):
        h = (h * 31 + ord(c)) % 1000003
    return h


def conditions():
    lit = [num(0.), num(1.), num(0.5), str_(''), str_('x'), str_('0'), var('null'), var('true'), var('false'), var('a'), var('z'), var('e'), var('arr'), var('obj'), var('s'), var('undefined'),
           call('hlog', num(0.)), call('hlog', str_('y')), call('hlog'), call('arrayNew'), call('arrayNew', num(0.)), call('objectNew'), call('nothing'), call('hfail'), call('mathMax')]
    res = list(lit)
    for e in lit:
        res += [unary('!', e), group(e), unary('!', unary('!', e)), unary('!', group(e)), group(unary('!', e))]
    for op in ('&&', '||', '==', '<', '+', '-'):
        for x, y in ((num(0.), num(1.)), (var('a'), num(0.)), (call('hlog', var('z')), call('hlog', var('a'))), (str_(''), var('null'))):
            e = binary(op, x, y)
            res += [e, unary('!', group(e)), binary(op, unary('!', x), y)]
    res += [call('if', var('a'), num(0.), num(1.)), unary('-', num(0.)), unary('-', var('a')), binary('&&', binary('!=', var('s'), str_('')), call('hlog', var('a'))),
            binary('||', unary('!', var('z')), call('hlog', var('a')))]
    return res


def log(*args):
    return s_expr(call('hlog', *args))


def condition_statements(rng, c, d, k):
    """every construct with the conditions c and d, also with nothing in it"""
    n = f'n{k}'
    inc = s_expr(binary('+', var(n), num(1.)), n)
    out = s_if([(binary('>=', var(n), num(2.)), [{'break': {}}])])
    a, b, e = (str_(f'{x}{k}') for x in 'abe')
    yield [s_if([(c, [log(a)])])]
    yield [s_if([(c, [log(a)])], [log(e)])]
    yield [s_if([(c, [log(a)]), (d, [log(b)])], [log(e)])]
    yield [s_if([(c, []), (d, [log(b)])], [])]
    yield [s_if([(c, []), (d, [])], [log(e)])]
    yield [s_if([(c, [log(a)]), (d, [])])]
    yield [s_expr(num(0.), n), s_while(c, [out, inc, log(a)]), log(var(n))]
    yield [s_expr(num(0.), n), s_while(c, [inc, s_if([(d, [out, log(b), {'continue': {}}])], [log(e)]), out]), log(var(n))]
    yield [s_expr(num(0.), n), s_while(c, [inc, s_if([(d, [])]), out]), log(var(n))]
    yield [s_expr(num(0.), n), s_while(binary('&&', binary('<', call('hlog', var(n)), num(2.)), atom(c)), [inc])]
    yield [s_expr(num(0.), n), s_while(c, [inc, s_while(d, [{'break': {}}]), out])]
    yield [s_for(f'v{k}', None, c, [log(var(f'v{k}'))]), log(var(f'v{k}'))]
    yield [s_for(f'v{k}', f'i{k}', c, []), log(var(f'v{k}'), var(f'i{k}'))]
    yield [s_for(f'v{k}', f'i{k}', call('arrayNew', c, d), [s_if([(var(f'v{k}'), [log(var(f'i{k}'))])], [{rng.choice(['break', 'continue']): {}}]), log(a)])]


LOOPS = [
    # the array, its variable, the variables of the loop and a nested loop of the same names change in the loop
    lambda: [s_for('arr', None, var('arr'), [log(var('arr'))]), log(var('arr'))],
    lambda: [s_for('v', 'i', var('arr'), [log(var('v'), var('i')), s_expr(call('arrayNew'), 'arr')]), log(var('v'), var('i'), var('arr'))],
    lambda: [s_for('v', 'i', var('arr'), [s_expr(call('arrayPush', var('arr'), var('i'))), log(var('v'), var('i'))]), log(var('arr'))],
    lambda: [s_for('v', 'i', var('arr'), [s_expr(call('arrayPop', var('arr'))), log(var('v'), var('i'))]), log(var('arr'))],
    lambda: [s_for('v', None, var('arr'), [s_expr(call('arrayShift', var('arr'))), log(var('v'))]), log(var('arr'))],
    lambda: [s_for('v', 'i', var('arr'), [s_expr(call('arraySet', var('arr'), num(2.), str_('new'))), log(var('v'), var('i'))])],
    lambda: [s_for('v', 'i', var('arr'), [s_expr(num(7.), 'v'), log(var('v'), var('i'))]), log(var('v'))],
    lambda: [s_for('v', None, var('arr'), [s_for('v', None, var('arr'), [log(var('v'))]), log(var('v'))])],
    lambda: [s_for('v', None, var('arr'), [s_for('w', None, var('v'), [log(var('w'))]), s_for('w', 'i', var('arr'), [{'break': {}}]), log(var('w'), var('i'))])],
    lambda: [s_for('v', None, call('hlog', var('arr')), [s_expr(var('v'), 'arr')]), log(var('arr'))],
    lambda: [s_for('v', None, var('mixed'), [s_if([(var('v'), [log(var('v'))])], [log(str_('no'), var('v'))])])],
    lambda: [s_for('v', 'i', var('mixed'), [s_if([(var('i'), [])], [{'continue': {}}]), s_if([(binary('>', var('i'), num(4.)), [{'break': {}}])]), log(var('i'))])],
    lambda: [s_expr(num(3.), 'c'), s_while(var('c'), [s_expr(binary('-', var('c'), num(1.)), 'c'), s_for('v', None, var('arr'), [s_if([(binary('==', var('v'), var('c')), [{'continue': {}}])]), log(var('v'), var('c'))])])],
]


def condition_cases(n):
    rng = rng_for(core.SEED, 'C01', 'conditions')
    pool = conditions()
    todo = []
    for k, c in enumerate(pool):
        for j, stmts in enumerate(condition_statements(rng, c, rng.choice(pool), k)):
            todo.append(stmts)
    todo += [f() for f in LOOPS] * 4
    rng.shuffle(todo)
    for i in range(0, len(todo), n):
        body = [s for stmts in todo[i:i + n] for s in stmts]
        # where the loops of one program share variables their values are those of the last one
        ast = body + [s_return(str_('end'))]
        if rng.random() < 0.4:
            ast = [s_func('main', [], ast), s_return(call('main'))]
        glob = gen.base_globals(rng)
        glob.update(hlog=Host('hlog'), hfail=Host('hfail'), a=rng.choice([2, 1.0, 'a']), z=rng.choice([0, None, False, 0.0]), e=rng.choice(['', [], None]), s=rng.choice(['', 's']),
                    arr=rng.choice([[3, 1.0, 2], [[1, 2], ['x'], []], [0], [], ['a', None, 0, 1, False]]), obj=rng.choice([{}, {'a': 1}]),
                    mixed=[0, 1, '', 'x', None, True, False, [], [0], {}, -0.0, datetime.datetime(2024, 1, 1), re.compile('a')])
        yield {'text': gen.text_of(ast), 'ast': ast, 'glob': glob, 'real_lim': 100000}


def check(rep):
    core.require_model('MC_Lower', 'MC_Lower_deep.cfg' if core.TIER == 'thorough' else None)
    shapes = list(shape_cases())
    if core.TIER == 'quick':
        shapes = [c for i, c in enumerate(shapes) if i < 200 or (i + core.SEED) % 2 == 0]
    machine.run_and_validate(rep, shapes, 'shape')
    machine.run_and_validate(rep, list(condition_cases(4 if core.TIER == 'quick' else 2)), 'conditions', min_ok=0.8)
    n = 1500 if core.TIER == 'quick' else 10000
    cases = []
    for i in range(n):
        rng = rng_for(core.SEED, 'C01', i)
        g = gen.ProgGen(rng, max_depth=rng.choice([2, 3, 4, 5]), size=rng.choice([8, 14, 24, 36]), features=('blockfunc', 'arrvar'))
        ast = g.program()
        cases.append({'text': gen.text_of(ast), 'ast': ast, 'glob': gen.base_globals(rng), 'real_lim': 100000})
    machine.run_and_validate(rep, cases, 'structured')
