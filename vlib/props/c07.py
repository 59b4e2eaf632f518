"""C07 lowered code is well formed: schema-valid with intact, unique jump targets"""
import copy
import itertools
import random
import re

from .. import core, gen, grammar
from ..gen import rng_for
from .c06 import closed
from .c18 import parse_warning

UNKNOWN = re.compile(r'Unknown jump label "(.*)"', re.S)


def value(x):
    """a model as a value of Schema"""
    if isinstance(x, dict):
        if all(isinstance(k, str) for k in x):
            return ['o', [[text(k), value(v)] for k, v in x.items()]]
        return ['x']
    if isinstance(x, list):
        return ['a', [value(v) for v in x]]
    if isinstance(x, str):
        return ['s', text(x)]
    if isinstance(x, bool):
        return ['b']
    if isinstance(x, (int, float)):
        return ['n']
    return ['z'] if x is None else ['x']


def text(s):
    return ''.join(c if 32 <= ord(c) < 127 else '?' for c in s)


def scopes_of(stmts):
    """labels and jumps of the global list and of the functions, in order"""
    res = [[]]

    def walk(ss, into):
        for s in ss:
            if 'label' in s:
                into.append(['L', text(s['label'])])
            elif 'jump' in s:
                into.append(['J', text(s['jump']['label'])])
            elif 'function' in s:
                res.append([])
                walk(s['function']['statements'], res[-1])
    walk(stmts, res[0])
    return res


def user_of(lines):
    """the labels and jumps that the text has: lines of the forms 'name:', 'jump name', 'jumpif (...) name'"""
    res = [[]]
    cur = res[0]
    for line in lines:
        s = line.strip()
        if re.match(r'(async\s+)?function\s+\w+\s*\(.*\)\s*:$', s):
            res.append([])
            cur = res[-1]
        elif s == 'endfunction':
            cur = res[0]
        elif re.match(r'[A-Za-z_]\w*\s*:$', s) and not re.match(r'else\s*:$', s):
            cur.append(['L', s[:-1].strip()])
        elif re.match(r'jump\s+\w+$', s) or re.match(r'jumpif\s*\(.*\)\s*\w+$', s):
            cur.append(['J', re.search(r'\w+$', s).group()])
    return res


def execute(model, seed):
    from bare_script import execute_script
    rng = random.Random(seed)
    names = {}

    def q(_args, _options):
        return rng.random() < 0.6
    for name in ('a', 'b', 'c', 'v', 'x'):
        names[name] = rng.choice([[1., 2.], [], True, False, 3.])
    names.update({'q': q, 'hlog': lambda args, _: args[-1] if args else None})
    try:
        execute_script(model, {'globals': names, 'maxStatements': 120})
    except Exception as exc: # pylint: disable=broad-except
        m = UNKNOWN.match(str(exc))
        if m and type(exc).__name__ == 'BareScriptRuntimeError':
            return m.group(1)
    return None


def observe(chunk):
    from bare_script import BareScriptParserError, lint_script, parse_script, validate_script
    out = []
    for case in chunk:
        try:
            model = parse_script(case['text'])
        except BareScriptParserError:
            out.append(None)
            continue
        rec = {'scopes': [], 'user': [], 'lint': [], 'unknown': [], 'model': [], 'valid': 1}
        if case['schema']:
            rec['model'] = value(model)
            try:
                validate_script(copy.deepcopy(model))
            except Exception: # pylint: disable=broad-except
                rec['valid'] = 0
        if case['user'] is not None:
            rec['user'] = case['user']
            rec['scopes'] = scopes_of(model['statements'])
            order = {}

            def walk(ss, order=order):
                for s in ss:
                    if 'function' in s:
                        order.setdefault(s['function']['name'], []).append(1 + sum(map(len, order.values())))
                        walk(s['function']['statements'])
            walk(model['statements'])
            before = copy.deepcopy(model)
            for warning in lint_script(model):
                w = parse_warning(warning)
                if w[0].endswith('-label'):
                    at = [1] if w[1] == '' else [n + 1 for n in order.get(w[1][2:], [])]
                    rec['lint'].append([w[0], at[0] if len(at) == 1 else -1, text(w[2])])
            found = set()
            for k in range(case['runs']):
                found.add(execute(before, k))
            rec['unknown'] = sorted(text(x) for x in found if x is not None)
        out.append(rec)
    return out


# ---- every nesting ----------------------------------------------------------------------------------

BRANCH = ['if', 'then', 'else', 'elif1', 'elif2', 'elifelse1', 'elifelse2', 'elifelse3']
LOOP = ['while', 'for', 'forix']
EXITS = ['', 'b', 'c', 'bc']
LEVELS = [(k, '') for k in BRANCH] + [(k, e) for k in LOOP for e in EXITS]


def exits(e):
    out = []
    if 'c' in e:
        out += ['if q():', 'continue', 'endif']
    if 'b' in e:
        out += ['if q():', 'hlog(1)', 'else:', 'break', 'endif']
    return out


def nest(path, hole):
    if not path:
        return list(hole)
    (k, e), rest = path[0], path[1:]
    inner = nest(rest, hole)
    p = ['hlog(1)']
    if k in LOOP:
        head = {'while': 'while q():', 'for': 'for v in arrayNew(1, 2):', 'forix': 'for v, i in arrayNew(1, 2, 3):'}[k]
        return [head] + exits(e[:1]) + inner + exits(e[1:]) + ['endwhile' if k == 'while' else 'endfor']
    return {'if': ['if q():'] + inner + ['endif'],
            'then': ['if q():'] + inner + ['else:'] + p + ['endif'],
            'else': ['if q():'] + p + ['else:'] + inner + ['endif'],
            'elif1': ['if q():'] + inner + ['elif q():'] + p + ['endif'],
            'elif2': ['if q():'] + p + ['elif q():'] + inner + ['endif'],
            'elifelse1': ['if q():'] + inner + ['elif q():'] + p + ['else:'] + p + ['endif'],
            'elifelse2': ['if q():'] + p + ['elif q():'] + inner + ['else:'] + p + ['endif'],
            'elifelse3': ['if q():'] + p + ['elif q():'] + p + ['else:'] + inner + ['endif']}[k]


def place(rng, how, block, other):
    """a block in a script"""
    leaf = ['hlog(2)']
    fn = lambda name, body: [f'function {name}(a):'] + body + ['return 1', 'endfunction']    # noqa
    o = nest(other, leaf)
    if how == 'global':
        return block
    if how == 'function':
        return fn('f', block) + ['f(1)']
    if how == 'functions':
        return fn('f', block) + fn('g', o) + fn('h', block) + ['f(1)', 'g(1)', 'h(1)']
    if how == 'both':
        return o + fn('f', block) + block + ['f(1)'] + o
    if how == 'sequence':
        return block + o + block
    # a function inside of open blocks, with more after it
    return nest(other[:2] or [('if', '')], fn('f', block) + o + ['f(q())']) + block


HOW = ['global', 'function', 'functions', 'both', 'sequence', 'inside']


def cases():
    deep = core.TIER == 'thorough'
    res = []

    def add(kind, lines, schema=True, user=True, runs=4):
        res.append({'kind': kind, 'text': '\n'.join(lines), 'schema': schema, 'user': user_of(lines) if user is True else user, 'runs': runs})
    rng = rng_for(core.SEED, 'C07')
    for path in itertools.chain([()], *[itertools.product(LEVELS, repeat=n) for n in ((1, 2, 3) if not deep else (1, 2, 3, 4))]):
        hows = HOW if len(path) < (2 if not deep else 3) else [rng.choice(HOW) if rng.random() < 0.6 else 'global']
        for how in hows:
            other = tuple(rng.choice(LEVELS) for _ in range(rng.choice([1, 1, 2])))
            add(f'depth-{len(path)}', place(rng, how, nest(path, ['hlog(3)']), other), schema=len(path) < 3 and rng.random() < 0.5, runs=3)
    for i in range(20000 if deep else 5000):
        r = rng_for(core.SEED, 'C07', 'deep', i)
        path = tuple(r.choice(LEVELS) for _ in range(r.choice([4, 4, 4, 5, 6, 9])))
        add('deeper', place(r, r.choice(HOW), nest(path, ['hlog(3)']), tuple(r.choice(LEVELS) for _ in range(2))), schema=r.random() < 0.05)
    # random blocks, with labels and jumps of their own
    for i in range(12000 if deep else 4000):
        r = rng_for(core.SEED, 'C07', 'random', i)
        lines = closed(r, r.choice([8, 15, 25, 40]))
        if r.random() < 0.6:
            for _ in range(r.choice([1, 2, 3])):
                k = r.randrange(len(lines) + 1)
                if k < len(lines) and lines[k].split()[0] in ('elif', 'else:'):
                    continue
                name = r.choice(['lab1', 'lab2', 'lab3', 'Done0', 'endif', 'done', 'loop', 'a'])
                lines.insert(k, r.choice(['jump ' + name, name + ':', f'jumpif (a) {name}']))
        add('random', lines, schema=r.random() < 0.3)
    for i in range(4000 if deep else 500):
        r = rng_for(core.SEED, 'C07', 'script', i)
        lines = grammar.script_lines(r, r.choice([6, 12, 25]))
        add('script', lines)
    # what else a model may have
    for i in range(4000 if deep else 700):
        r = rng_for(core.SEED, 'C07', 'schema', i)
        lines = [r.choice(grammar.SPECIAL_LINES) for _ in range(r.choice([1, 1, 1, 3]))]
        if r.random() < 0.5:
            g = grammar.ExprText(r)
            lines = [r.choice(['x = ', 'return ', '']) + g.join(g.expr(2)[0]).strip()]
            if r.random() < 0.3:
                lines = [grammar.mutate(r, lines[0])]
        if r.random() < 0.3:
            lines = ['function f(' + r.choice(['', 'a', 'a, b', 'a...', 'a, b...', ' a , b ', '...', 'a, a']) + '):'] + lines + ['endfunction']
        add('schema', lines, user=None)
    for line in grammar.SPECIAL_LINES + ['x = 1e+308', 'x = 1e+309', 'x = 1e+999', 'x = -1e+999', 'x = 123456789012345678901234567890', 'x = ' + '9' * 400, 'f()', 'x = f()', 'return', 'jump a',
                                         'include <a.bare>', "include 'a.bare'", "include ''", 'include <>', 'function f():\nendfunction', 'async function f(a...):\nendfunction']:
        add('schema', [line], user=None)
    # numbering goes on however many blocks there are
    for i in range(8 if deep else 3):
        r = rng_for(core.SEED, 'C07', 'many', i)
        lines = []
        for k in range(r.choice([150, 300, 600])):
            block = nest((r.choice(LEVELS),), ['hlog(3)'])
            lines += ['function m%d():' % k] + block + ['endfunction'] if r.random() < 0.2 else block
        add('many', lines, schema=False, runs=1)
    for t in shipped():
        add('shipped', t.split('\n'), schema=False)
    return res


def shipped():
    import glob
    import os
    out = []
    for path in sorted(glob.glob(os.path.join(core.REPO_SRC, 'bare_script', 'include', '*.bare'))):
        with open(path, encoding='utf-8') as f:
            out.append(f.read())
    return out


def corrupt(rng, rec):
    """a record with the label discipline broken"""
    rec = copy.deepcopy(rec)
    k = rng.randrange(6)
    full = [i for i, (s, u) in enumerate(zip(rec['scopes'], rec['user'])) if any(e not in u for e in s)]
    if k == 5 and rec['model']:
        stmts = rec['model'][1][0][1][1]
        if stmts:
            st = rng.choice(stmts)
            st[1].append(['expr', ['o', []]])
            return rec
    if not full:
        return None
    i = rng.choice(full)
    sc, us = rec['scopes'][i], rec['user'][i]
    mine = [e for e in sc if e not in us]
    e = rng.choice(mine)
    labels = [x for x in mine if x[0] == 'L']
    if k == 0:
        sc.append(['L', e[1]])
    elif k == 1 and labels:
        sc.remove(rng.choice(labels))
    elif k == 2:
        sc.append(['L', '__bareScriptNew'])
    elif k == 3:
        rec['lint'].append([rng.choice(['unused-label', 'dup-label', 'unknown-label']), i + 1, e[1]])
    elif k == 4:
        rec['unknown'].append(e[1])
    else:
        sc.append(['J', '__bareScriptNew'])
    return rec


def check(rep):
    deep = core.TIER == 'thorough'
    core.require_model('MC_Labels', 'MC_Labels_deep.cfg' if deep else None)
    core.require_counterexample('MC_Labels', 'MC_Labels_reset.cfg')
    todo = cases()
    chunks = [todo[i:i + 60] for i in range(0, len(todo), 60)]
    records = []
    index = []
    rejected = 0
    for k, (status, val) in enumerate(core.pmap(observe, chunks, soft=20.0)):
        if status != 'ok':
            # one at a time
            val = []
            for (s1, v1), case in zip(core.pmap(observe, [[c] for c in chunks[k]], soft=6.0), chunks[k]):
                val.append(v1[0] if s1 == 'ok' else 'no answer')
                if s1 != 'ok':
                    rep.violation(f"no answer ({s1}): {case['text']!r} {v1}"[:600], {'text': case['text']})
        for j, rec in enumerate(val):
            case = todo[60 * k + j]
            if rec == 'no answer':
                continue
            if rec is None:
                rejected += 1
                rep.count(case['kind'] + '_rejected')
                continue
            rep.count(case['kind'])
            records.append(rec)
            index.append(60 * k + j)
    rng = rng_for(core.SEED, 'C07', 'canary')
    canaries = []
    for i in rng.sample(range(len(records)), min(len(records), 250)):
        rec = corrupt(rng, records[i])
        if rec is not None:
            canaries.append((i, rec))
    verdicts = core.validate('Trace_Labels', records + [c for _, c in canaries], weight=lambda r: sum(map(len, r['scopes'])) + 5 * (len(r['model']) > 0) + 5)
    for i, (clause, _), rec in zip(index, verdicts, records):
        if clause:
            rep.violation(f"{clause}: {todo[i]['text']!r}"[:700], {'clause': clause, 'text': todo[i]['text'], 'record': {k: v for k, v in rec.items() if k != 'model'}})
    for (i, rec), (clause, _) in zip(canaries, verdicts[len(records):]):
        rep.canaries += 1
        if not clause:
            rep.canaries_missed.append((todo[index[i]]['text'], rec['lint'], rec['unknown']))
    rep.coverage['scopes'] = sum(len(r['scopes']) for r in records)
    rep.coverage['labels'] = sum(len(s) for r in records for s in r['scopes'])
    rep.samples = [todo[i]['text'] for i in rng.sample(range(len(todo)), 6)]
