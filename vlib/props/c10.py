"""C10 source layout does not change the parsed program"""
import copy
import json

from .. import core, grammar
from ..enc import cps
from ..gen import rng_for
from .c07 import shipped


def key_of(model):
    """a text that is the same exactly when the models are"""
    def norm(x):
        if isinstance(x, dict):
            return {'o': [[k, norm(v)] for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))]}
        if isinstance(x, (list, tuple)):
            return [type(x).__name__] + [norm(v) for v in x]
        if isinstance(x, bool) or x is None or isinstance(x, str):
            return x
        return {'n': [type(x).__name__, repr(x)]}
    return json.dumps(norm(model))


def spoil(x):
    """change a model everywhere"""
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v)
        x['zzz'] = 1
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        x.append({'label': 'spoiled'})


def parse(parts, how, what):
    from bare_script import BareScriptParserError, parse_expression, parse_script
    try:
        if what == 'expr':
            model = parse_expression(parts[0])
        else:
            given = list(parts)
            src = given[0] if how == 'text' else given if how == 'list' else tuple(given) if how == 'tuple' else iter(given) if how == 'iter' else (x for x in given)
            model = parse_script(src)
            if given != list(parts):
                return 'the list of texts was changed', None
        return 'ok:' + key_of(model), model
    except BareScriptParserError as exc:
        return f'err:{exc.error}|{exc.line}|{exc.column_number}|{exc.line_number}|{exc}', None
    except Exception as exc: # pylint: disable=broad-except
        return 'other:' + type(exc).__name__, None


def observe(chunk):
    out = []
    for what, layouts, noise in chunk:
        ids = {}
        rec = []
        for parts, how, messy in layouts:
            res, model = parse(parts, how, what)
            if messy and model is not None:
                spoil(model)
            for text in noise:
                # other parses in between
                _, other = parse([text], 'text', 'script')
                if other is not None:
                    spoil(other)
                _, other = parse([text], 'text', 'expr')
                if other is not None:
                    spoil(other)
            coarse = res if res.startswith('ok:') else res.split(':')[0]
            rec.append([[cps(p) for p in parts], ids.setdefault(res, len(ids) + 1), ids.setdefault(coarse, len(ids) + 1)])
        out.append((rec, list(ids)))
    return out


def cases():
    deep = core.TIER == 'thorough'
    res = []
    scripts = [[l for l in t.split('\n') if l.strip() and not l.lstrip().startswith('#') and not l.rstrip().endswith('\\')] for t in shipped()]
    for i in range(2500 if deep else 330):
        r = rng_for(core.SEED, 'C10', i)
        x = r.random()
        if x < 0.7:
            lines = grammar.script_lines(r, r.choice([3, 6, 10]))
        elif x < 0.85:
            lines = [l for l in (r.choice(grammar.SPECIAL_LINES) for _ in range(r.choice([1, 2, 3]))) if '#' not in l and l.strip()] or ['x = 1']
        else:
            g = grammar.ExprText(r)
            lines = []
            for _ in range(r.choice([1, 2, 3])):
                t = g.join(g.expr(2)[0]).strip()
                if '\n' not in t:
                    lines.append(r.choice(['x = ', 'return ', 'f(1, ']) + t)
                    if lines[-1].startswith('f('):
                        lines[-1] += ')'
            lines = lines or ['x']
        if i % 11 == 0:
            # a piece of a shipped script
            lines = r.choice(scripts)
            n = r.choice([4, 8, 12, 16])
            k = r.randrange(max(1, len(lines) - n))
            lines = lines[k:k + n]
        base = '\n'.join(lines)
        layouts = [([base], 'text', r.random() < 0.3)]
        if r.random() < 0.3:
            layouts.append(([base], 'text', True))
        layouts.append(([grammar.whole(r, lines, '\r\n')], 'text', False))
        layouts.append((grammar.chunk(r, lines), r.choice(['list', 'tuple', 'iter', 'gen']), False))
        layouts.append((list(lines), 'list', False))
        for _ in range(r.choice([2, 3, 4])):
            phys = grammar.layout(r, lines, r.choice([0.5, 1.0, 2.0]))
            if r.random() < 0.5:
                layouts.append(([grammar.whole(r, phys)], 'text', False))
            else:
                layouts.append((grammar.chunk(r, phys), r.choice(['list', 'tuple', 'iter', 'gen']), False))
        if r.random() < 0.3:
            # every break there is
            layouts.append(([grammar.whole(r, breaks(r, lines))], 'text', False))
        layouts.append(([base], 'text', False))
        noise = [r.choice([base, '\n'.join(grammar.script_lines(r, 3)), 'if a:', 'x = 1 +', 'function f():', "x = 'a", '(', 'while true:\nbreak', base[:len(base) // 2], 'x = \\', 'for a in b:\ncontinue'])
                 for _ in range(r.choice([0, 1, 2]))]
        res.append(('script', layouts, noise))
    for i in range(6000 if deep else 600):
        r = rng_for(core.SEED, 'C10', 'expr', i)
        g = grammar.ExprText(r)
        t = g.join(g.expr(2)[0])
        if r.random() < 0.2:
            t = grammar.mutate(r, t)
        res.append(('expr', [([t], 'text', True), ([t], 'text', True), ([t], 'text', False)], [r.choice([t, t + ' + 1', '(', 'x', t[:len(t) // 2]])]))
    return res


def breaks(rng, lines):
    """every line broken at every space outside of quotes"""
    out = []
    for line in lines:
        s = line.strip()
        parts = ['']
        q = None
        k = 0
        while k < len(s):
            c = s[k]
            if q:
                if c == '\\' and k + 1 < len(s):
                    parts[-1] += c
                    k += 1
                    c = s[k]
                elif c == q:
                    q = None
            elif c in '\'"[':
                q = ']' if c == '[' else c
            elif c.isspace():
                if parts[-1]:
                    parts.append('')
                k += 1
                continue
            parts[-1] += c
            k += 1
        parts = [p for p in parts if p]
        for p in parts[:-1]:
            out.append(rng.choice(['', '  ', '\t']) + p + rng.choice(['\\', ' \\', '\\  ']))
            if rng.random() < 0.1:
                out.append(rng.choice(['# c', '', '  # \\']))
        out.append(parts[-1] if parts else '')
    return out


def check(rep):
    deep = core.TIER == 'thorough'
    core.require_model('MC_Layout', 'MC_Layout_deep.cfg' if deep else None)
    core.require_counterexample('MC_Layout', 'MC_Layout_quoted.cfg')
    todo = cases()
    # the same worker sees many texts one after another: state between calls would show
    chunks = [todo[i:i + 20] for i in range(0, len(todo), 20)]
    records = []
    index = []
    names = []
    for k, (status, value) in enumerate(core.pmap(observe, chunks, soft=10.0)):
        for j in range(len(chunks[k])):
            i = 20 * k + j
            rep.count(todo[i][0])
            if status != 'ok':
                rep.violation(f'no answer: {todo[i][1][0][0]!r}'[:300], {'layouts': todo[i][1]})
                continue
            rec, ids = value[j]
            rep.count('layouts', len(rec))
            records.append(rec)
            index.append(i)
            names.append(ids)
    rng = rng_for(core.SEED, 'C10', 'canary')
    canaries = []
    for i in rng.sample(range(len(records)), 60):
        rec = copy.deepcopy(records[i])
        n = rng.randrange(1, len(rec))
        rec[n][1] += 1000
        rec[n][2] += 1000
        canaries.append((i, rec))
    verdicts = core.validate('Trace_Layout', records + [c for _, c in canaries], weight=lambda r: sum(len(p) for parts, *_ in r for p in parts) + 30)
    opened = lost = 0
    for i, ids, (clause, extra), rec in zip(index, names, verdicts, records):
        if 'open' in extra:
            opened += 1
        elif 'lost' in extra:
            lost += int(extra.split('lost ')[1].strip('">'))
        if clause:
            n = int(clause.split(':')[1]) - 1 if ':' in clause else 0
            a, b = todo[i][1][0][0], todo[i][1][n][0] if n < len(todo[i][1]) else None
            rep.violation(f'{clause}: {a!r} and {b!r}'[:700], {'clause': clause, 'first': a, 'other': b, 'how': todo[i][1][n][1] if b else None,
                                                               'results': [ids[rec[0][1] - 1], ids[rec[n][1] - 1]]})
    rep.coverage['open'] = opened
    rep.coverage['layouts_with_another_reading'] = lost
    for (i, rec), (clause, extra) in zip(canaries, verdicts[len(records):]):
        if 'open' in extra:
            continue
        n = next(k for k in range(len(rec)) if rec[k][1] >= 1000)
        rep.canaries += 1
        if not clause and rec[n][0] == rec[0][0]:
            rep.canaries_missed.append((todo[index[i]][1][0][0], n))
        elif not clause:
            # that layout has another reading
            rep.canaries -= 1
    rep.samples = [todo[i][1][-2][0] for i in rng.sample(range(len(todo)), 6)]
