"""C02 expression text parses to the tree the precedence rules dictate"""
import itertools

from .. import core, grammar
from ..enc import cps
from ..gen import OPS, rng_for


def observe(chunk):
    from bare_script import BareScriptParserError, parse_expression, parse_script
    out = []
    for text, via in chunk:
        try:
            if via:
                stmts = parse_script(via + ' ' + text)['statements']
                res = ['ok', grammar.tree(stmts[0]['return' if via == 'return' else 'expr']['expr'])] if len(stmts) == 1 else ['ok', grammar.BAD]
            else:
                res = ['ok', grammar.tree(parse_expression(text))]
        except BareScriptParserError as exc:
            res = ['err', int(exc.column_number) - (len(via) + 1 if via else 0)]
        except Exception as exc: # pylint: disable=broad-except
            res = ['other', type(exc).__name__]
        out.append(res)
    return out


TOKENS = ['a', '1', "'s'", '(', ')', ',', '+', '**', '!', '-', 'f(', '[b]', '<', '==', '||']


TEMPLATES = [t.split(' ') for t in ('f ( a , b )', '( a + b ) * c', '- a ** ! b', "f ( g ( ) , 's' )", '[x] != 1.5 || ( a )', 'a - - 1', 'if ( a , b , c ) + d', "! ( 's' + f ( ) )")]


def texts():
    """(text, tree or None, loose)"""
    deep = core.TIER == 'thorough'
    rng = rng_for(core.SEED, 'C02')
    res = []
    # every chain of up to three (four) operators
    for n in (1, 2, 3, 4) if deep else (1, 2, 3):
        for ops in itertools.product(OPS, repeat=n):
            res.append(('chain', 'a' + ''.join(f' {op} {x}' for op, x in zip(ops, 'bcd')), None, False))
    for _ in range(20000 if deep else 1500):
        n = rng.choice([4, 4, 5, 6, 8, 12, 20])
        res.append(('chain', 'x0' + ''.join(f' {rng.choice(OPS)} {rng.choice(["", "", "", "-", "!"])}x{i}' for i in range(n)), None, False))
    # every short sequence of tokens
    for n in (1, 2, 3):
        for toks in itertools.product(TOKENS, repeat=n):
            res.append(('tokens', ' '.join(toks), None, False))
    for _ in range(40000 if deep else 2500):
        res.append(('tokens', rng.choice(['', ' ', ' ']).join(rng.choice(TOKENS) for _ in range(rng.choice([4, 4, 5, 6, 7]))), None, False))
    # every short sequence inside of a call and inside of parentheses
    for head, toks, tail in (('f(', ['a', ',', ')', '(', '-', '1'], ')'), ('(', ['a', '+', ',', ')', '!', 'f('], ')')):
        for n in (0, 1, 2, 3, 4):
            for ts in itertools.product(toks, repeat=n):
                res.append(('inside', ' '.join((head,) + ts + (tail,)), None, False))
    # every edit of one token
    edits = [' '.join(ts) for t in TEMPLATES for ts in grammar.token_edits(t, TOKENS + ['%', '&&', '>=', '0x1', '1e5', '.', '"t"', ']', '=', 'if', '&', '?'])]
    for t in edits:
        res.append(('token-edit', t, None, False))
    # every character at every kind of place, and after a backslash
    for c in [chr(n) for n in range(32, 127)] + ['\t', '\x0b', '\x0c', '\x1c', '\x85', '\xa0', '\u2028', '\u3000', '\ufeff', '\u00b2', '\u0660', '\u00e9', '\u212a', '\U0001d7d8', '\0', '\x7f']:
        for t in ('a + 10{}', 'a{}b', "'s'{}", '{}a', 'f(a){}', '(a{}', 'f({}', '[a]{}', '1.5{}2', '1{}', 'a {} b', '{0}{0}a', 'a {0}{0} b', "'a{}b'", '"a{}b"', '[a{}b]', "'\\{}'", '"\\{}"', '[\\{}]', "'\\\\{}'",
                  "'\\\\\\{}'", '[\\\\{}]', "'\\u00{}1'", "'\\u004{}'", '1e+{}', 'f{}(a)', 'f(a{} b)', 'a {}= b', 'a ={} b', 'a {}& b', '-{}', '!{}'):
            res.append(('char', t.format(c), None, False))
    # trees in any layout, and texts close to them
    for i in range(20000 if deep else 2500):
        r = rng_for(core.SEED, 'C02', 'tree', i)
        g = grammar.ExprText(r)
        toks, tree = g.expr(r.choice([1, 2, 2, 3]))
        text = g.join(toks)
        res.append(('tree', text, tree, False))
        for _ in range(3 if deep else 2):
            res.append(('edit', grammar.mutate(r, text), None, False))
    # deep and long texts: the outcome is a tree or a parser error
    for n in (50, 300, 3000, 30000):
        for t in ('(' * n + 'a' + ')' * n, '!' * n + 'a', '-' * n + '1', 'f(' * n + ')' * n, 'a' + ' + a' * n, '(' * n, 'a' + ' ** (a' * n, "'" + '\\' * n, '"' + '\\' * n + 'x',
                  '[' + '\\' * n, 'f(' + 'a, ' * n + 'b)', ' ' * n + 'a' + ' ' * n, 'a' * n, '1' * n, "'" + "\\'" * n, "'" + 'x' * n + "'"):
            res.append(('deep', t, None, n > 50))
    return res


def check(rep):
    core.require_model('MC_Grammar', 'MC_Grammar_deep.cfg' if core.TIER == 'thorough' else None)
    cases = texts()
    rng = rng_for(core.SEED, 'C02', 'via')
    work = []
    for kind, text, _, loose in cases:
        via = ''
        if kind != 'deep' and '\n' not in text and '\r' not in text and not text.rstrip().endswith('\\') and text.strip() and rng.random() < 0.12:
            via = rng.choice(['return', 'zz ='])
            if via == 'zz =' and text.strip() != text or text.lstrip() != text:
                via = ''
            if text.rstrip() != text or text[0] in '=:':
                via = ''
        work.append((text, via))
    chunks = [work[i:i + 100] for i in range(0, len(work), 100)]
    # a text that takes long is run on its own
    results = []
    again = []
    for c, (status, value) in zip(chunks, core.pmap(observe, chunks, soft=6.0)):
        if status == 'ok':
            results.extend(value)
        else:
            again.extend(range(len(results), len(results) + len(c)))
            results.extend([None] * len(c))
    for i, (status, value) in zip(again, core.pmap(observe, [[work[i]] for i in again], soft=4.0, retry=len(again) <= 8)):
        results[i] = value[0] if status == 'ok' else None
    records = []
    index = []
    for i, ((kind, text, tree, loose), res) in enumerate(zip(cases, results)):
        rep.count(kind)
        if res is None:
            rep.violation(f'no answer: {text[:120]!r} ({len(text)} characters)', {'text': text})
            continue
        if loose and res[0] == 'ok':
            res = ['ok', []]
        records.append({'text': [] if loose else cps(text), 'out': res, 'tok': tree or [], 'loose': loose})
        index.append(i)
    # corrupted observations
    canaries = []
    for k, i in enumerate(rng.sample(range(len(records)), 60)):
        r = dict(records[i])
        if r['loose']:
            continue
        if r['out'][0] == 'ok' and k % 2:
            r['out'] = ['err', 1]
        elif r['out'][0] == 'ok':
            t = r['out'][1]
            r['out'] = ['ok', ['grp', t] if t[0] != 'bin' else ['bin', t[1], t[3], t[2]] if t[2] != t[3] else ['var', cps('q')]]
        else:
            r['out'] = ['ok', ['var', cps('a')]]
        r['tok'] = []
        canaries.append((i, r))
    verdicts = core.validate('Trace_Expr', records + [c for _, c in canaries], weight=lambda r: len(r['text']) + 20)
    opened = 0
    for i, (clause, extra), rec in zip(index, verdicts, records):
        if 'open' in extra:
            opened += 1
        if clause:
            text, via = work[i]
            rep.violation(f'{clause}: {via + " " if via else ""}{text!r}', {'text': text, 'via': via, 'observed': rec['out'], 'tree': cases[i][2]})
    rep.coverage['undecided'] = opened
    rep.canaries = 0
    for (i, r), (clause, extra) in zip(canaries, verdicts[len(records):]):
        if 'open' in extra or 'loose' in extra:
            continue
        rep.canaries += 1
        if not clause:
            rep.canaries_missed.append((work[i], r['out']))
    rep.samples = [work[i][0] for i in rng.sample(range(len(work)), 6)]
