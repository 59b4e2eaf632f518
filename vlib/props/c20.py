"""C20 diffLines from the shipped include library reconstructs both inputs; the shipped scripts are clean"""
import contextlib
import copy
import glob as globmod
import io
import itertools
import os
import re

from .. import core, gen, machine
from ..enc import Prog, cps
from ..gen import binary, call, num, rng_for, s_expr, s_return, str_, var
from .c07 import value as schema_value

ALPHABETS = [('a', 'b', 'c'), ('', ' ', '\t'), ('x', 'X', 'xx'), ('1', '1.0', '01'), ('null', 'true', '0'), ('{', '}', '    "a": 1,'), ('\u00e9', 'e\u0301', 'e'),
             ('a\x0cb', 'a\x0b', 'a\u2028b'), ('# x', '\\', "'"), ('2024-01-01', '2024-01-02', '2024'), ('', 'a', ' a'), ('\x85', '\u00a0', '\x1c'),
             ('toString', '__proto__', 'length'), ('aa', 'ab', 'aaa'), ('x' * 60, 'x' * 59 + 'y', 'x' * 61), ('\U0001f600', '\ufeff', '\x00')]

SCRIPT = """include <diff.bare>
results = arrayNew()
for call in calls:
    arrayPush(results, diffLines(arrayGet(call, 0), arrayGet(call, 1)))
endfor
return results
"""


def fetcher():
    """the include fetcher of the command line"""
    import bare_script.bare as cli
    fetch = getattr(cli, '_fetch_include', None)
    prefix = getattr(cli, '_FETCH_INCLUDE_PREFIX', None)
    if fetch is not None and prefix is not None:
        return fetch, prefix
    prefix = ':inc:/'
    top = os.path.join(os.path.dirname(cli.__file__), 'include')

    def read(request):
        with open(os.path.join(top, request['url'][len(prefix):]), encoding='utf-8') as f:
            return f.read()
    return read, prefix


def plain(blocks):
    """blocks as observed: anything that is no list of blocks is <<"?", <<>>>>"""
    if not isinstance(blocks, list):
        return [['?', []]]
    out = []
    if sum(len(b['lines']) for b in blocks if isinstance(b, dict) and isinstance(b.get('lines'), list)) > 1000:
        return [['?', []]]      # (far more than there were)
    for b in blocks:
        if isinstance(b, dict) and set(b) == {'type', 'lines'} and b['type'] in ('Identical', 'Add', 'Remove') and isinstance(b['lines'], list) and all(
                isinstance(t, str) for t in b['lines']):
            out.append([b['type'], [cps(t) for t in b['lines']]])
        else:
            out.append(['?', []])
    return out


def texts(side):
    return [cps(t) for t in (side if isinstance(side, list) else [side])]


def observe(chunk):
    from bare_script import execute_script, parse_script
    fetch, prefix = fetcher()
    before = copy.deepcopy(chunk)
    calls = [[a, a] if same == 2 else [a, b] for a, b, same in chunk]
    res = execute_script(parse_script(SCRIPT), {'globals': {'calls': calls}, 'fetchFn': fetch, 'systemPrefix': prefix, 'maxStatements': 0})
    if not isinstance(res, list) or len(res) != len(chunk):
        res = [None] * len(chunk)
    return {'calls': [[texts(a), texts(b), 1 if a == b else 0, plain(r)] for (a, b, _), r in zip(before, res)]}


def literal(side):
    """the side as an expression (strings have no escape for line ends)"""
    if isinstance(side, list):
        return call('arrayNew', *[literal(t) for t in side])
    parts = [str_(t) if t[:1] not in ('\r', '\n') else call('stringFromCharCode', *[num(float(ord(c))) for c in t]) for t in re.findall(r'[\r\n]+|[^\r\n]+', side)]
    e = str_('')
    for p in parts:
        e = binary('+', e, p)
    return e


def observe_cli(chunk):
    """through the command line, the differences printed line by line"""
    import bare_script.bare as cli
    out = []
    for i, (a, b, _) in enumerate(chunk):
        script = '\n'.join(['include <diff.bare>', f'l = {gen.expr_text(literal(a))}', f'r = {gen.expr_text(literal(b))}', 'for d in diffLines(l, r):',
                            "    systemLog('T' + objectGet(d, 'type'))", "    for t in objectGet(d, 'lines'):", "        systemLog('L' + t)", '    endfor', 'endfor',
                            "systemLog('E')"])
        argv = [['-c', script], ['-d', '-c', script], ['-m', '-c', script]][i % 3]
        stdout = io.StringIO()
        with contextlib.redirect_stdout(stdout):
            try:
                cli.main(argv)
            except SystemExit:
                pass
        blocks = []
        end = False
        for line in stdout.getvalue().split('\n'):
            if line[:1] == 'T':
                blocks.append([line[1:] if line[1:] in ('Identical', 'Add', 'Remove') else '?', []])
            elif line[:1] == 'L' and blocks:
                blocks[-1][1].append(cps(line[1:]))
            elif line == 'E':
                end = True
        out.append([texts(a), texts(b), 1 if a == b else 0, blocks if end else [['?', []]]])
    return {'calls': out}


def shape(rng, lines, how=None):
    """a side with these lines: a list of lines, one text, a list of texts of several lines"""
    how = how or rng.choice(['lines', 'lines', 'lf', 'crlf', 'mixed', 'parts'])
    if not lines or how == 'lines':
        return list(lines)

    def join(part):
        ends = {'lf': ['\n'], 'crlf': ['\r\n']}.get(how, ['\n', '\r\n'])
        return ''.join(t + (rng.choice(ends) if k < len(part) - 1 else '') for k, t in enumerate(part))
    if how == 'parts':
        out = []
        k = 0
        while k < len(lines):
            n = rng.choice([1, 1, 2, 3])
            out.append(join(lines[k:k + n]))
            k += n
        return out
    return join(lines)


def canonical(n, m, k=3):
    """all pairs of lists over k letters, up to naming the letters in order of appearance"""
    for word in itertools.product(range(k), repeat=n + m):
        top = 0
        for c in word:
            if c > top:
                break
            top = max(top, c + 1)
        else:
            yield word[:n], word[n:]


def pairs():
    deep = core.TIER == 'thorough'
    rng = rng_for(core.SEED, 'C20')
    every = [(n, m, a, b) for n in range(7) for m in range(7) for a, b in canonical(n, m)]
    small = [p for p in every if p[0] + p[1] <= 7]
    large = [p for p in every if p[0] + p[1] > 7]
    if not deep:
        large = rng.sample(large, 12000)
    for n, m, a, b in small + large:
        letters = list(rng.choice(ALPHABETS[:1] * 6 + ALPHABETS))
        rng.shuffle(letters)
        left = [letters[c] for c in a]
        right = [letters[c] for c in b]
        if rng.random() < 0.7:
            yield 'exhaustive', left, right, 0
        else:
            yield 'exhaustive', shape(rng, left), shape(rng, right), 0
    for i in range(40000 if deep else 3000):
        r = rng_for(core.SEED, 'C20', 'random', i)
        letters = [t for _ in range(r.choice([1, 2])) for t in r.choice(ALPHABETS)]
        letters = list(dict.fromkeys(letters + [f'line {k}' for k in range(r.choice([0, 0, 3, 20]))]))
        left = [r.choice(letters) for _ in range(r.choice([0, 1, 2, 5, 8, 13, 20, 30, 40]))]
        k = r.random()
        if k < 0.15:
            right = list(left)
        elif k < 0.75:
            right = list(left)
            for _ in range(r.choice([1, 1, 2, 3, 6])):
                e = r.random()
                at = r.randrange(len(right) + 1)
                if e < 0.35:
                    right[at:at] = [r.choice(letters) for _ in range(r.choice([1, 1, 2, 4]))]
                elif e < 0.7:
                    del right[at:at + r.choice([1, 1, 2, 4])]
                elif e < 0.85 and right:
                    part = right[at:at + 3]
                    del right[at:at + 3]
                    at = r.randrange(len(right) + 1)
                    right[at:at] = part
                elif right:
                    right[r.randrange(len(right))] = r.choice(letters)
        else:
            right = [r.choice(letters) for _ in range(r.choice([0, 1, 2, 5, 8, 13, 20, 30, 40]))]
        left, right = left[:40], right[:40]
        how = r.choice(['lines', 'lf', 'crlf', 'mixed', 'parts', None, None])
        a = shape(r, left, how)
        b = shape(r, right, how) if r.random() < 0.6 else shape(r, right)
        if k < 0.15:
            e = r.random()
            yield 'identical', a, copy.deepcopy(a), 2 if e < 0.5 else 0
        else:
            yield 'random', a, b, 0
    for a in ['', '\n', '\r\n', '\n\n', 'a\n', '\na', 'a\r\n', '\r\na', 'a\n\n', 'a\n\r\n', 'a', [], [''], ['', ''], ['a\n'], ['\n', ''], ['a', 'a\n'], ['\r\n']]:
        for b in ['', '\n', '\r\n', 'a', 'a\n', '\na', 'a\r\n', [], [''], ['a', ''], ['', '', ''], 'a\na', ['b', 'a\r\nb']]:
            yield 'edges', a, b, 0
        yield 'edges', a, copy.deepcopy(a), 2


def describe(c):
    return f'diffLines({c[0]!r}, {c[1]!r})'


def corrupt(rng, rec):
    rec = copy.deepcopy(rec)
    with_blocks = [c for c in rec['calls'] if c[3]]
    if not with_blocks:
        return None
    c = rng.choice(with_blocks)
    bs = c[3]
    k = rng.randrange(7)
    i = rng.randrange(len(bs))
    if k == 0:
        del bs[i]
    elif k == 1:
        bs.insert(i, ['Identical', []])
    elif k == 2:
        bs[i][1] = bs[i][1][:-1]
    elif k == 3:
        bs[i][0] = {'Identical': 'Add', 'Add': 'Remove', 'Remove': 'Identical'}.get(bs[i][0], '?')
    elif k == 4:
        bs.insert(i, copy.deepcopy(bs[i]))
    elif k == 5:
        bs[i][1] = [cps("!!")] + bs[i][1][1:]
    else:
        c[0].append(cps('another'))
    return rec


def include_files():
    return sorted(globmod.glob(os.path.join(core.REPO_SRC, '**', '*.bare'), recursive=True))


def shipped(path):
    from bare_script import lint_script, parse_script, validate_script
    import bare_script.bare as cli
    with open(path, encoding='utf-8') as f:
        source = f.read()
    rec = {'parsed': 1, 'valid': 1, 'warn': 0, 'static': -1, 'model': ['o', []], 'codes': [], 'fns': [], 'main': 1}
    try:
        model = parse_script(source)
    except Exception as exc: # pylint: disable=broad-except
        return {**rec, 'parsed': 0}, str(exc)
    what = ''
    rec['model'] = schema_value(model)
    prog = Prog()
    rec['main'] = prog.code(model['statements'])
    rec['codes'], rec['fns'] = prog.codes, prog.fns
    try:
        validate_script(copy.deepcopy(model))
    except Exception as exc: # pylint: disable=broad-except
        rec['valid'] = 0
        what = str(exc)
    warnings = lint_script(model)
    rec['warn'] = len(warnings)
    what = what or '; '.join(warnings)
    stdout = io.StringIO()
    with contextlib.redirect_stdout(stdout):
        try:
            cli.main(['-s', path])
        except SystemExit as exc:
            rec['static'] = exc.code if isinstance(exc.code, int) else 0 if exc.code is None else 1
    # included in debug mode, what is included is linted
    name = os.path.basename(path)
    log = []
    if os.path.basename(os.path.dirname(path)) == 'include':
        from bare_script import execute_script
        fetch, prefix = fetcher()
        model = {'statements': [{'include': {'includes': [{'url': name, 'system': True}]}}]}
        try:
            execute_script(model, {'fetchFn': fetch, 'systemPrefix': prefix, 'logFn': log.append, 'debug': True})
        except Exception as exc: # pylint: disable=broad-except
            rec['parsed'] = 0
            what = what or f'include <{name}>: {type(exc).__name__}: {exc}'
        rec['warn'] += sum('static analysis' in t.lower() and 'ok' not in t.lower() for t in log)
        what = what or '; '.join(log)
    return rec, what


def machine_cases(n):
    """the include run step by step by the machine: the model of the shipped file as it is parsed"""
    with open(os.path.join(core.REPO_SRC, 'bare_script', 'include', 'diff.bare'), encoding='utf-8') as f:
        source = f.read()
    every = [(a, b) for x in range(4) for y in range(4) for a, b in canonical(x, y)]
    for i in range(n):
        r = rng_for(core.SEED, 'C20', 'machine', i)
        a, b = r.choice(every)
        letters = list(r.choice(ALPHABETS[:2]))
        a, b = (shape(r, [letters[c] for c in s]) for s in (a, b))
        ast = [{'include': {'includes': [{'url': 'diff.bare', 'system': True}]}}, s_expr(literal(a), 'l'), s_expr(literal(b), 'r'),
               s_return(call('diffLines', var('l'), var('r')))]
        yield {'text': gen.text_of(ast), 'ast': ast, 'files': {':inc:diff.bare': source}, 'base': 'm.bare', 'prefix': ':inc:', 'fetch': True, 'glob': {}, 'real_lim': 0,
               'unk': True, 'names': ['diffSentinel'], 'desc': f'diffLines({a!r}, {b!r})'}


def run_calls(rep, fn, items, size, label):
    chunks = [items[i:i + size] for i in range(0, len(items), size)]
    records, origin = [], []
    for k, (status, val) in enumerate(core.pmap(fn, [[tuple(x[1:]) for x in c] for c in chunks], soft=30.0)):
        if status == 'ok':
            records.append(val)
            origin.append(chunks[k])
            continue
        for (s1, v1), c in zip(core.pmap(fn, [[tuple(x[1:])] for x in chunks[k]], soft=5.0), chunks[k]):
            if s1 == 'ok':
                records.append(v1)
                origin.append([c])
            else:
                rep.violation(f'{label}: no result ({s1}): {describe(c[1:])} {v1}'[:600], {'left': repr(c[1]), 'right': repr(c[2])})
    rng = rng_for(core.SEED, 'C20', 'canary', label)
    canaries = [(i, corrupt(rng, records[i])) for i in (rng.randrange(len(records)) for _ in range(60 if len(records) else 0))]
    canaries = [(i, c) for i, c in canaries if c is not None]
    verdicts = core.validate('Trace_Diff', records + [c for _, c in canaries], weight=lambda r: sum(3 + sum(map(len, c[0])) + sum(map(len, c[1])) for c in r['calls']))
    for k, (rec, items_) in enumerate(zip(records, origin)):
        clause = verdicts[k][0]
        if clause:
            at, what = clause.split(':', 1)
            c = rec['calls'][int(at) - 1]
            item = items_[int(at) - 1]
            got = [[b[0], [''.join(map(chr, t)) for t in b[1]]] for b in c[3]]
            rep.violation(f'{label}: {what}: {describe(item[1:])} gives {got}'[:700], {'clause': what, 'left': repr(item[1]), 'right': repr(item[2]), 'blocks': got})
    for (i, _), (clause, _) in zip(canaries, verdicts[len(records):]):
        rep.canaries += 1
        if not clause:
            rep.canaries_missed.append((label, records[i]['calls'][:1]))
    for c in origin:
        for x in c:
            rep.count(x[0] if label == 'script' else label)
    rep.coverage['blocks'] = rep.coverage.get('blocks', 0) + sum(len(c[3]) for r in records for c in r['calls'])


def check(rep):
    deep = core.TIER == 'thorough'
    core.require_model('MC_Diff', 'MC_Diff_deep.cfg' if deep else None)
    core.require_model('MC_Diff', 'MC_Diff_free.cfg')
    core.require_model('MC_Diff', 'MC_Diff_ends.cfg')
    core.require_counterexample('MC_Diff', 'MC_Diff_drop.cfg')
    items = list(pairs())
    run_calls(rep, observe, items, 40, 'script')
    rng = rng_for(core.SEED, 'C20', 'cli')
    simple = [x for x in items if all(c in '\r\n' or 32 <= ord(c) < 127 and c not in '\\\'' for s in x[1:3] for t in (s if isinstance(s, list) else [s]) for c in t)]
    run_calls(rep, observe_cli, rng.sample(simple, 1500 if deep else 160), 10, 'cli')
    # the scripts
    paths = include_files()
    if len(paths) < 3:
        raise core.MachineryError(f'shipped scripts: {paths}')
    recs = []
    for path, (status, val) in zip(paths, core.pmap(shipped, paths, soft=30.0)):
        if status != 'ok':
            rep.violation(f'shipped: no answer ({status}): {os.path.basename(path)} {val}'[:500], {'path': path})
            continue
        recs.append((path, *val))
        rep.count('shipped')
    bad = []
    for path, rec, _ in recs:
        if rec['parsed']:
            for key, v in (('warn', 1), ('valid', 0), ('parsed', 0), ('static', 1), ('codes', rec['codes'] + [[['label', 'x'], ['label', 'x']], [['jump', 'y']]]), ('model', ['o', []])):
                r = {**rec, key: v}
                if key == 'codes':
                    r['main'] = len(v)
                bad.append((path, key, r))
    verdicts = core.validate('Trace_Shipped', [r for _, r, _ in recs] + [r for _, _, r in bad], weight=lambda r: 10 + sum(map(len, r['codes'])))
    for (path, _, what), (clause, _) in zip(recs, verdicts):
        if clause:
            rep.violation(f'shipped: {clause}: {os.path.relpath(path, core.REPO_SRC)}: {what}'[:600], {'path': path, 'what': what})
    for (path, key, _), (clause, _) in zip(bad, verdicts[len(recs):]):
        rep.canaries += 1
        if not clause:
            rep.canaries_missed.append((os.path.basename(path), key))
    machine.run_and_validate(rep, list(machine_cases(1500 if deep else 160)), 'machine', min_ok=0.9)
    rep.samples = [describe(x[1:]) for x in rng.sample(items, 6)]
