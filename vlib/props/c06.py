"""C06 the parser is total and its diagnostics point at the offending source"""
import itertools

from .. import core, grammar
from ..enc import cps
from ..gen import rng_for


def outcome(parts, start):
    from bare_script import BareScriptParserError, parse_script
    try:
        model = parse_script(parts[0] if len(parts) == 1 else parts, start)
        return ['ok', grammar.items(model.get('statements')) if isinstance(model, dict) and set(model) == {'statements'} else [grammar.BAD]]
    except BareScriptParserError as exc:
        num, col = exc.line_number, exc.column_number
        whole = lambda x: int(x) if isinstance(x, (int, float)) and not isinstance(x, bool) and x == int(x) else -1   # noqa
        return ['err', whole(num), cps(exc.line) if isinstance(exc.line, str) else [-1], whole(col), cps(exc.error), cps(str(exc))]
    except Exception as exc: # pylint: disable=broad-except
        return ['other', type(exc).__name__]


def observe(chunk):
    from bare_script import BareScriptParserError, parse_expression
    out = []
    for case in chunk:
        start = case.get('start', 1)
        rec = {'parts': [cps(p) for p in case['parts']], 'start': start, 'out': outcome(case['parts'], start), 'shifted': [], 'emb': [], 'loose': case.get('loose', False)}
        for pre, n in case.get('shift', ()):
            base = outcome([pre], 1)
            rec['shifted'].append([n, base[1] if base[0] == 'ok' else [], outcome([pre + '\n' + '\n'.join(case['parts'])], start)])
        if case.get('emb'):
            pre, text = case['emb']
            try:
                parse_expression(text)
            except BareScriptParserError as exc:
                rec['emb'] = [cps(pre), int(exc.column_number)]
            except Exception: # pylint: disable=broad-except
                pass
        if rec['loose']:
            rec['parts'] = [[]]
            if rec['out'][0] == 'ok':
                rec['out'] = ['ok', []]
            rec['shifted'] = []
            if rec['out'][0] == 'err' and len(rec['out'][2]) > 5000:
                rec['out'] = ['ok', []] if 1 <= rec['out'][3] <= len(rec['out'][2]) + 1 else ['err', -1, [], -1, [], []]
        out.append(rec)
    return out


PREFIXES = [('# a comment', 1), ('', 1), ('\n', 2), ('zz = 1', 1), ('zz = 1\n\n# c\nhlog(zz)', 4), ('   \n\t# x', 2), ("zz = 'a'\nzz = \\\n  2", 3)]
# statements around an expression
HOLES = [('if ', ':'), ('while ', ':'), ('for v in ', ':'), ('for v, i in ', ' :'), ('return ', ''), ('x = ', ''), ('x=', ' '), ('   jumpif (', ') lab'), ('\tif   ', '  : '), ('        while  ', ':'),
         ('jumpif  (', ')   lab '), ('  return   ', '  '), ('  for  v  in   ', ':')]

EDIT_TOKENS = ['a', '1', ',', '(', ')', ':', '...', '=', "'s'", '<', 'in', 'if', 'function', '#', '\\', '[b]', '.']
TEMPLATES = [([], 'function g ( a , b ... ) :', ['endfunction']), ([], 'async function g ( ) :', ['endfunction']), ([], 'for v , i in a :', ['endfor']), ([], 'for v in f ( a ) :', ['endfor']),
             ([], 'if a :', ['endif']), (['if a:'], 'elif b :', ['endif']), (['if a:'], 'else :', ['endif']), ([], 'while a :', ['endwhile']), ([], 'jumpif ( a ) lab', ['lab:']), ([], 'jump lab', ['lab:']),
             ([], "include 'u' ", []), ([], 'include <u>', []), ([], 'return a', []), ([], 'return', []), ([], 'x = a', []), ([], 'lab :', []), (['while a:'], 'break', ['endwhile']),
             (['for v in a:'], 'continue', ['endfor']), (['if a:'], 'endif', []), (['function f():'], 'endfunction', []), (['for v in a:'], 'endfor', []), (['while a:'], 'endwhile', []), ([], 'f ( a )', ['x = 1'])]


def cases():
    deep = core.TIER == 'thorough'
    res = []

    def add(kind, lines, **kw):
        res.append({'kind': kind, 'parts': kw.pop('parts', None) or ['\n'.join(lines)], **kw})
    # every sequence of block lines, complete or not
    for n in (1, 2, 3):
        for ls in itertools.product(grammar.BLOCK_LINES, repeat=n):
            add('blocks', ls)
    rng = rng_for(core.SEED, 'C06')
    for _ in range(30000 if deep else 2500):
        ls = [rng.choice(grammar.BLOCK_LINES) for _ in range(rng.choice([4, 5, 6, 8]))]
        if rng.random() < 0.6:
            ls = closed(rng, rng.choice([3, 5, 8]))
            for _ in range(rng.choice([0, 1, 1, 2])):
                i = rng.randrange(len(ls)) if ls else 0
                r = rng.random()
                if r < 0.4:
                    ls[i:i + 1] = []
                elif r < 0.7:
                    ls.insert(i, rng.choice(grammar.BLOCK_LINES))
                elif ls:
                    j = rng.randrange(len(ls))
                    ls[i], ls[j] = ls[j], ls[i]
        add('blocks', ls, shift=[rng.choice(PREFIXES)] if rng.random() < 0.2 else [])
    # every special line, alone, in a block, after others
    for line in grammar.SPECIAL_LINES:
        add('special', [line], shift=PREFIXES[:4])
        add('special', ['x = 1', line, 'x = 2'], start=rng.choice([1, 1, 7, 100]))
        add('special', ['function f(a):', 'if a:', '  ' + line, 'endif', 'endfunction'])
    for _ in range(6000 if deep else 1000):
        ls = [rng.choice(grammar.SPECIAL_LINES) if rng.random() < 0.3 else rng.choice(['x = 1', 'f(x)', '# c', '', 'lab:', 'x = \\', '  2']) for _ in range(rng.choice([2, 3, 4, 6]))]
        add('special', ls)
    # every edit of one token of every kind of statement
    for before, line, after in TEMPLATES:
        edits = [' '.join(ts) for ts in grammar.token_edits(line.split(' '), EDIT_TOKENS)]
        for text in edits if deep else rng.sample(edits, min(len(edits), 220)):
            if rng.random() < 0.3:
                text = text.replace(' ', '')
            add('token-edit', before + [text] + after)
    # every kind of gap at every place of every kind of statement, and text glued to both of its ends
    gaps = ['', '  ', '\t', '\u00a0', '\x0b', '\x1f', '\u2003', '\u200b', '\ufeff']
    for before, line, after in TEMPLATES:
        ts = line.split(' ')
        for k in range(len(ts) + 1):
            for gap in gaps if deep else gaps[:2] + rng.sample(gaps[2:], 3):
                add('gap', before + [' '.join(ts[:k]) + gap + ' '.join(ts[k:])] + after)
        for glue in ('x', '1', '_', '.', '()', ' x', ' 1', ' = 1', '=1', ':', ' :', '#', ' # c', ' \\', '\\', ';', "'", ' ()', '...'):
            add('gap', before + [line + glue] + after)
            if ' ' in line:
                add('gap', before + [line.replace(' ', '') + glue] + after)
            add('gap', before + [glue + line] + after)
    # valid scripts in any layout and in pieces, and texts close to them
    for i in range(3000 if deep else 260):
        r = rng_for(core.SEED, 'C06', 'script', i)
        lines = grammar.script_lines(r, r.choice([4, 8, 14]))
        phys = grammar.layout(r, lines)
        add('script', phys, parts=grammar.chunk(r, phys) if r.random() < 0.4 else [grammar.whole(r, phys)], start=r.choice([1, 1, 1, 5, 1000]))
        for _ in range(3):
            text = '\n'.join(phys)
            if r.random() < 0.5 and phys:
                # one line is edited
                ls = list(phys)
                k = r.randrange(len(ls))
                ls[k] = grammar.mutate(r, ls[k])
                text = '\n'.join(ls)
            else:
                text = grammar.mutate(r, text)
            add('edit', [], parts=[text], shift=[r.choice(PREFIXES)] if r.random() < 0.3 and not text.rstrip().endswith('\\') else [], start=r.choice([1, 1, 3]))
    # expressions that are rejected, in every statement
    for i in range(8000 if deep else 900):
        r = rng_for(core.SEED, 'C06', 'hole', i)
        g = grammar.ExprText(r)
        text = grammar.mutate(r, g.join(g.expr(r.choice([1, 2]))[0]).strip()).strip()
        if not text or '\n' in text or '\r' in text or text[0] == '=' or text.endswith('\\'):
            continue
        pad = r.choice([0, 0, 0, 40, 100, 130, 250])
        if pad:
            long = ' + '.join(f'v{k:03d}' for k in range(pad // 7 + 1))
            text = r.choice([long + ' + ' + text, text + ' + ' + long, long + ' * ' + text + ' - ' + long])
        pre, post = r.choice(HOLES)
        add('hole', [pre + text + post], emb=(pre, text), shift=[r.choice(PREFIXES)] if r.random() < 0.2 else [], start=r.choice([1, 1, 1, 50]))
    # long lines: the caret
    for i in range(3000 if deep else 400):
        r = rng_for(core.SEED, 'C06', 'long', i)
        n = r.choice([100, 117, 118, 119, 120, 121, 122, 123, 130, 179, 180, 181, 182, 200, 239, 240, 241, 242, 300, 400])
        filler = ''.join(r.choice('abcdefgh') for _ in range(n))
        at = r.choice([0, 1, 2, 3, n, n - 1, n - 2, r.randrange(n), r.randrange(n), 59, 60, 61, 62, n - 59, n - 60, n - 61, n - 62])
        at = max(0, min(n, at))
        line = r.choice(['x = ', '', '  ', 'if ', 'return ']) + filler[:at] + r.choice([' @', ' ) ', ' 1x', ' "', '']) + filler[at:]
        if r.random() < 0.3:
            line = r.choice(['elif ' + filler + ':', 'x = f(' + filler, '(' + filler, 'if ' + filler + ':', 'x = "' + filler, 'endif' + ' ' * n, ' ' * n + 'endif', 'function ' + filler + '():'])
        add('long', ['x = 1', line] if r.random() < 0.3 else [line], start=r.choice([1, 1, 9]))
    # anything at all
    for i in range(20000 if deep else 1500):
        r = rng_for(core.SEED, 'C06', 'any', i)
        n = r.choice([1, 3, 8, 20, 40])
        pool = r.choice(['ab \n', 'if endwhile:\n ', '\\\n #\r\'"x=', "()[]'\"\\+-*&|<>=!,.:# \n\r\tae1_", None])
        text = ''.join(chr(r.choice([r.randrange(32, 127), 10, 13, 9, r.randrange(0x80, 0x800), 0x1F600, 0x2028, 0, 0x85, 0xD800])) if pool is None else r.choice(pool) for _ in range(n))
        add('any', [], parts=[text], shift=[r.choice(PREFIXES)] if r.random() < 0.15 and not text.rstrip().endswith('\\') else [])
    for n in (100, 1000, 20000):
        for t in ('(' * n, 'if a:\n' * n, 'x = 1\n' * n, 'a' + ' + a' * n, 'x = ' + '-' * n, "x = '" + '\\' * n, 'x = [' + '\\' * n, '\\\n' * n, 'x = \\\n' * n, '#' * n, '\n' * n, 'f(' * n, 'function f():\n' * n,
                  'function f(' + 'a, ' * n + 'b):\nendfunction', 'x = 1 ' + '\\ ' * n, "include '" + "\\'" * n, "include '" + '\\' * n, 'if a:\n' * n + 'endif\n' * n, 'while a:\n' * n + 'break\n' + 'endwhile\n' * n,
                  'for a in b:\n' * min(n, 1000) + 'endfor\n' * min(n, 1000), 'a:\n' * n, 'if ' + '!' * n + 'a:', 'return ' + '(' * n + ')' * n, 'x' * n + ' y', "'" + '"' * n, 'x = ' + 'y ' * n):
            add('deep', [], parts=[t], loose=n > 100 or t.count('\n') > 50)
    return res


def closed(rng, size):
    """the lines of complete blocks"""
    out = []

    def block(depth, loop, fn):
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            if len(out) > size * 3:
                return
            r = rng.random()
            if depth > 0 and r < 0.25:
                out.append('if a:')
                block(depth - 1, loop, fn)
                for _ in range(rng.choice([0, 0, 1, 2])):
                    out.append('elif b:')
                    block(depth - 1, loop, fn)
                if rng.random() < 0.4:
                    out.append('else:')
                    block(depth - 1, loop, fn)
                out.append('endif')
            elif depth > 0 and r < 0.45:
                w = rng.random() < 0.5
                out.append('while a:' if w else 'for v in a:')
                block(depth - 1, True, fn)
                out.append('endwhile' if w else 'endfor')
            elif depth > 0 and r < 0.6 and not fn:
                out.append('function f(a):')
                block(depth - 1, False, True)
                out.append('endfunction')
            elif loop and r < 0.75:
                out.append(rng.choice(['break', 'continue']))
            else:
                out.append('x = 1')
    while len(out) < size:
        block(3, False, False)
        if rng.random() < 0.2:
            break
    return out


def run(rep, todo):
    chunks = [todo[i:i + 50] for i in range(0, len(todo), 50)]
    results = []
    again = []
    for c, (status, value) in zip(chunks, core.pmap(observe, chunks, soft=8.0)):
        if status == 'ok':
            results.extend(value)
        else:
            again.extend(range(len(results), len(results) + len(c)))
            results.extend([None] * len(c))
    for i, (status, value) in zip(again, core.pmap(observe, [[todo[i]] for i in again], soft=8.0, retry=len(again) <= 8)):
        results[i] = value[0] if status == 'ok' else None
    return results


def corrupt(rec, k):
    """a wrong observation"""
    o = rec['out']
    r = dict(rec)
    if o[0] == 'ok':
        if not o[1]:
            return None
        k %= 3
        if k == 0:
            # a statement is lost
            ix = [i for i, m in enumerate(o[1]) if m[0] not in ('label', 'jump', 'jumpif', 'function', 'endfunction') and not (m[0] == 'expr' and m[1])]
            if not ix:
                return None
            i = ix[len(ix) // 2]
            r['out'] = ['ok', o[1][:i] + o[1][i + 1:]]
        elif k == 1:
            r['out'] = ['ok', o[1] + [['return']]]
        else:
            r['out'] = ['err', r['start'], [], 1, cps('e'), cps(f"e, line number {r['start']}:\n\n^\n")]
    elif o[0] == 'err':
        k %= 4
        _, num, line, col, error, msg = o
        if k == 0:
            r['out'] = ['err', num + 1, line, col, error, cps(''.join(map(chr, msg)).replace(f'line number {num}', f'line number {num + 1}'))]
        elif k == 1:
            r['out'] = ['err', num, line, col, error, msg[:-2] + [32] + msg[-2:]]
        elif k == 2:
            r['out'] = ['ok', []]
        else:
            r['out'] = ['err', num, line + [120], col, error, msg]
    else:
        return None
    return r


def check(rep):
    deep = core.TIER == 'thorough'
    core.require_model('MC_Blocks', 'MC_Blocks_deep.cfg' if deep else None)
    todo = cases()
    results = run(rep, todo)
    records = []
    index = []
    for i, (case, rec) in enumerate(zip(todo, results)):
        rep.count(case['kind'])
        if rec is None:
            rep.violation(f'no answer: {case["parts"][0][:120]!r} ({sum(map(len, case["parts"]))} characters)', {'parts': case['parts']})
            continue
        records.append(rec)
        index.append(i)
    rng = rng_for(core.SEED, 'C06', 'canary')
    canaries = []
    for k, i in enumerate(rng.sample(range(len(records)), 120)):
        r = None if records[i]['loose'] else corrupt(records[i], k)
        if r is not None:
            r['emb'] = []
            r['shifted'] = []
            canaries.append((i, r))
    verdicts = core.validate('Trace_Parse', records + [c for _, c in canaries], weight=lambda r: sum(map(len, r['parts'])) + 30)
    opened = 0
    for i, (clause, extra), rec in zip(index, verdicts, records):
        case = todo[i]
        opened += 'open' in extra
        if clause:
            out = rec['out']
            got = ['err', out[1], out[3], ''.join(map(chr, out[4]))] if out[0] == 'err' else out
            rep.violation(f'{clause}: {case["parts"]!r}'[:600] + f' start {case.get("start", 1)} -> {got!r}'[:300], {'case': case, 'observed': out, 'clause': clause})
    rep.coverage['undecided'] = opened
    for (i, r), (clause, extra) in zip(canaries, verdicts[len(records):]):
        if 'open' in extra:
            continue
        rep.canaries += 1
        if not clause:
            rep.canaries_missed.append((todo[index[i]]['parts'], r['out']))
    rep.samples = [todo[i]['parts'] for i in rng.sample(range(len(todo)), 6)]
