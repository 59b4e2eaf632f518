"""C14 JSON serialisation is faithful: jsonParse(jsonStringify(v)) equals v"""
import copy
import itertools
import json
import math
import struct

from .. import core, machine
from ..enc import Enc, cps
from ..gen import rng_for
from ..runner import Host

PUNCT = 'a.0,]}'
CHARS = [chr(c) for c in range(0, 256)] + ['\u2028', '\u2029', '\ufeff', '\uffff', '\ufffd', '\ud7ff', '\ue000', '\ud800', '\udfff', '\udc00', '\U00010000', '\U0001f600', '\U0010ffff', '\u0300', '\u200b', '\u212a', '\u0131', '\u1e9e', '\u00df',
                                           '\u0660', '\u3000', '\u4e2d', '\ufb01', '\u0085', '\u00a0', '\u00ad', '\u061c', '\u202e', '\U000e0001', '\u1680']
PIECES = ['.0', '.0,', '.0]', '.0}', ',', ']', '}', '{', '[', ':', '"', "'", '\\', '/', '\\"', '\\u0041', '\\n', '\\\\', 'null', 'true', '1.0', '2.50', '1e5', '10', '0.0', '-0', 'NaN', 'Infinity', '-Infinity', '</script>', '//', '/*', ' ', '  ', '\t',
          '\n', '\r\n', 'a', 'b', 'Z', 'etc., x', '": "', '","', '\\u', '\\ud83d', '\U0001f600', '\u00e9', 'e\u0301', '\u2028', '\x00', '\x1f', '\x7f', '.00', '.0\n', '.0 ', '100', '.', '0', '__proto__', '', '$', '%s', '{0}', '\ud800', '\udc00']


def strings(rng):
    r = rng.random()
    if r < 0.2:
        return rng.choice(PIECES)
    if r < 0.7:
        s = ''.join(rng.choice(PIECES) for _ in range(rng.choice([1, 2, 3, 5])))
    else:
        s = ''.join(rng.choice(CHARS) if rng.random() < 0.5 else chr(rng.choice([rng.randrange(32, 127), rng.randrange(0x100, 0xd800), rng.randrange(0xe000, 0x110000)])) for _ in range(rng.choice([1, 2, 4, 8])))
    return lone(s)


def lone(s):
    """no high surrogate directly before a low one: together they are another character's encoding"""
    out = ''
    for c in s:
        if '\udc00' <= c <= '\udfff' and out and '\ud800' <= out[-1] <= '\udbff':
            continue
        out += c
    return out


def number(rng):
    r = rng.random()
    if r < 0.3:
        return float(rng.choice([0, 1, -1, 10, 100, 1000, 1e5, 1e15, 1e16, 1e17, 1e21, 1e22, 2 ** 53, -0.0, 1e100, 12345678, 1e300, -20, 1.5e300]))
    if r < 0.5:
        return rng.randrange(10 ** 6) / 10 ** rng.choice([0, 1, 2, 3, 6])
    if r < 0.6:
        return rng.choice([0, 1, -1, 10, 100, 2 ** 31, 2 ** 53, -2 ** 60, 10 ** 20])
    if r < 0.8:
        return rng.choice([0.1, 0.5, 1.05, 10.01, 100.001, 1e-7, 1.5e-7, 5e-324, 1e-300, 2.5, 0.3, 1 / 3, 1.7976931348623157e308, 123456789.125, 1e-5, 4503599627370496.5])
    while True:
        x = struct.unpack('<d', rng.getrandbits(64).to_bytes(8, 'little'))[0]
        if math.isfinite(x):
            return x


def value(rng, depth):
    r = rng.random()
    if depth == 0 or r < 0.35:
        return rng.choice([None, True, False, lambda: number(rng), lambda: number(rng), lambda: strings(rng), lambda: strings(rng), lambda: [], lambda: {}])
    if r < 0.65:
        return [force(value(rng, depth - 1)) for _ in range(rng.choice([0, 1, 2, 3, 6]))]
    return {strings(rng) if rng.random() < 0.7 else rng.choice(['a', 'b', 'B', 'aa', 'a.0', '1', '10', '2', '']): force(value(rng, depth - 1)) for _ in range(rng.choice([0, 1, 2, 3, 5]))}


def force(v):
    return v() if callable(v) else v


SCRIPTS = {'none': 'return jsonStringify(v)', 'null': 'return jsonStringify(v, null)'}
WAYS = {**SCRIPTS, **{f'indent-{n}': f'return jsonStringify(v, {n})' for n in range(1, 9)}}


def observe(chunk):
    from bare_script import execute_script, parse_script
    models = {how: parse_script(text) for how, text in WAYS.items()}
    parse = parse_script('return jsonParse(t)')
    out = []
    for v, hows in chunk:
        enc = Enc()
        before = copy.deepcopy(v)
        rec = {'value': enc.val(before), 'outs': []}
        texts = {}
        for how in hows:
            try:
                t = execute_script(models[how], {'globals': {'v': v}})
            except Exception as exc: # pylint: disable=broad-except
                t = None
            if not isinstance(t, str):
                rec['outs'].append([how, [], ['x']])
                continue
            if t in texts:
                continue
            texts[t] = how
            try:
                back = execute_script(parse, {'globals': {'t': t}})
                rec['outs'].append([how, cps(t), enc.val(back)])
            except Exception: # pylint: disable=broad-except
                rec['outs'].append([how, cps(t), ['x']])
        rec['heap'] = enc.heap
        out.append(rec)
    return out


def cases():
    deep = core.TIER == 'thorough'
    res = []
    rng = rng_for(core.SEED, 'C14')

    def hows():
        return ['none', rng.choice(list(WAYS)), f'indent-{rng.randrange(1, 9)}']
    # every string of up to four of the characters, as elements, keys, members and alone
    texts = [''.join(p) for n in (range(0, 6) if deep else range(0, 5)) for p in itertools.product(PUNCT, repeat=n)]
    for i in range(0, len(texts), 12):
        part = texts[i:i + 12]
        res.append(('punct', [t for t in part], ['none', 'indent-2']))
        res.append(('punct', {t: [t, 1.] for t in part}, ['none', f'indent-{rng.randrange(1, 9)}']))
    for t in rng.sample(texts, 200) + texts[:43]:
        res.append(('punct', rng.choice([t, [t, 5.], [10., t], {'k': t, 'n': 1.}, {t: 0.}, [[t]], [{t: t}]]), hows()))
    for c in CHARS:
        res.append(('char', [c, {c: c + 'x' + c, 'x' + c: 1.}, c + c if not '\ud800' <= c <= '\udfff' else c], hows()))
        res.append(('char', c, ['none']))
    for i in range(12000 if deep else 1500):
        r = rng_for(core.SEED, 'C14', 'tree', i)
        res.append(('tree', force(value(r, r.choice([1, 2, 3, 4, 5]))), ['none', r.choice(list(WAYS)), f'indent-{r.randrange(1, 9)}']))
    for i in range(3000 if deep else 400):
        r = rng_for(core.SEED, 'C14', 'numbers', i)
        res.append(('numbers', [number(r) for _ in range(8)], ['none', f'indent-{r.randrange(1, 9)}']))
    for i in range(3000 if deep else 250):
        # objects with many keys, near each other
        r = rng_for(core.SEED, 'C14', 'keys', i)
        base = strings(r)
        keys = {lone(base + strings(r)) for _ in range(6)} | {base, base.upper(), base.lower(), base + '.0', base + ' ', base[::-1] if lone(base[::-1]) == base[::-1] else base}
        items = [(k, r.choice([1., None, k, [], {}])) for k in keys]
        r.shuffle(items)
        res.append(('keys', dict(items), ['none', f'indent-{r.randrange(1, 9)}']))
    # one container in several places
    for i in range(60):
        r = rng_for(core.SEED, 'C14', 'shared', i)
        part = force(value(r, 2))
        part = part if isinstance(part, (list, dict)) else [part]
        res.append(('shared', r.choice([[part, part], {'a': part, 'b': [part]}, [[part], {'k': part}, part]]), ['none', 'indent-3']))
    deeper = [1.]
    for _ in range(30):
        deeper = [deeper] if rng.random() < 0.5 else {'k.0': deeper}
    res.append(('tree', deeper, ['none', 'indent-1']))
    return res


def corrupt(rng, rec):
    rec = copy.deepcopy(rec)
    o = rng.choice(rec['outs'])
    k = rng.randrange(4)
    t = o[1]
    if k == 0:
        o[2] = ['s', cps('corrupted!')]
    elif k == 1:
        o[1] = t + cps(rng.choice([']', ',', 'x', '"', '{}']))
    elif k == 2:
        o[1] = cps('[') + t + cps(']')
    else:
        # a character of a string or number is another one
        at = [i for i, c in enumerate(t) if chr(c).isalnum() and chr(c) not in '0u\\' and (i == 0 or t[i - 1] not in (92,))]
        at = [i for i in at if not (i and t[i - 1] == 92)]
        if not at or len(set(map(chr, t))) < 2:
            o[2] = ['x']
        else:
            i = rng.choice(at)
            o[1] = t[:i] + cps(';') + t[i:]
    return rec


def again_cases(n):
    """the value of a JSON text is the script's own: changing it changes neither the text's value nor that of another call"""
    from .c08 import SPOIL  # pylint: disable=import-outside-toplevel
    for i in range(n):
        rng = rng_for(core.SEED, 'C14', 'again', i)
        v = force(value(rng, rng.choice([1, 2, 3])))
        w = force(value(rng, 2))
        glob = {'t': json.dumps(v), 'u': json.dumps(w), 'v': v, 'hlog': Host('hlog')}
        lines = [SPOIL]
        for j in range(rng.choice([2, 3])):
            how = rng.choice(["jsonParse(t)", "jsonParse(t)", "jsonParse(jsonStringify(v))", "jsonParse(u)", f"jsonParse(jsonStringify(v, {rng.choice([1, 2, 4])}))"])
            lines += [f'r{j} = {how}', f'hlog(r{j}, jsonStringify(r{j}))']
            if rng.random() < 0.7:
                lines.append(f'spoil({rng.choice([f"r{j}", f"r{j}", "r0", "v"])}, {rng.choice([0, 1, 3])})')
        yield {'text': '\n'.join(lines + ['return jsonParse(t)']), 'glob': glob, 'real_lim': 0, 'lim': 0, 'hide': ''}


def check(rep):
    deep = core.TIER == 'thorough'
    machine.run_and_validate(rep, list(again_cases(3000 if deep else 250)), 'again', min_ok=0.5)
    core.require_model('MC_Json', 'MC_Json_deep.cfg' if deep else None)
    core.require_counterexample('MC_Json', 'MC_Json_cleanup.cfg')
    todo = cases()
    chunks = [[(v, hows) for _, v, hows in todo[i:i + 40]] for i in range(0, len(todo), 40)]
    records = []
    index = []
    for k, (status, val) in enumerate(core.pmap(observe, chunks, soft=20.0)):
        if status != 'ok':
            val = []
            for (s1, v1), c in zip(core.pmap(observe, [[c] for c in chunks[k]], soft=5.0), chunks[k]):
                val.append(v1[0] if s1 == 'ok' else None)
                if s1 != 'ok':
                    rep.violation(f'no answer ({s1}): {c[0]!r} {v1}'[:500], {'value': repr(c[0])})
        for j, rec in enumerate(val):
            if rec is not None:
                records.append(rec)
                index.append(40 * k + j)
                rep.count(todo[40 * k + j][0])
    rng = rng_for(core.SEED, 'C14', 'canary')
    canaries = [(i, corrupt(rng, records[i])) for i in rng.sample(range(len(records)), 120)]
    verdicts = core.validate('Trace_Json', records + [c for _, c in canaries], weight=lambda r: 20 + sum(len(o[1]) for o in r['outs']))
    for i, (clause, _), rec in zip(index, verdicts, records):
        if clause:
            how = clause.split(':')[1]
            t = next((''.join(map(chr, o[1])) for o in rec['outs'] if o[0] == how), None)
            rep.violation(f'{clause}: {todo[i][1]!r} gives {t!r}'[:600], {'clause': clause, 'value': repr(todo[i][1]), 'text': t})
    for (i, rec), (clause, _) in zip(canaries, verdicts[len(records):]):
        rep.canaries += 1
        if not clause:
            rep.canaries_missed.append((repr(todo[index[i]][1]), [''.join(map(chr, o[1])) for o in rec['outs']]))
    rep.coverage['texts'] = sum(len(r['outs']) for r in records)
    rep.samples = [repr(todo[i][1]) for i in rng.sample(range(len(todo)), 6)]
