"""C18 lint is pure, never fails, and its warnings are semantically justified"""
import copy
import glob as globmod
import json
import os
import re

from .. import core, gen, incgen, machine, runner
from ..enc import Prog
from ..gen import binary, call, group, num, rng_for, s_expr, s_func, s_return, str_, unary, var
from ..runner import Host
from .c08 import LABELS, NAMES, ModelGen, jump, label

PATTERNS = [
    ('unknown-label', r'Unknown global label "(?P<n>.*)" \(index (?P<i>\d+)\)'),
    ('unknown-label', r'Unknown label "(?P<n>.*)" in function "(?P<s>.*)" \(index (?P<i>\d+)\)'),
    ('unused-label', r'Unused global label "(?P<n>.*)" \(index (?P<i>\d+)\)'),
    ('unused-label', r'Unused label "(?P<n>.*)" in function "(?P<s>.*)" \(index (?P<i>\d+)\)'),
    ('dup-label', r'Redefinition of global label "(?P<n>.*)" \(index (?P<i>\d+)\)'),
    ('dup-label', r'Redefinition of label "(?P<n>.*)" in function "(?P<s>.*)" \(index (?P<i>\d+)\)'),
    ('dup-fn', r'Redefinition of function "(?P<n>.*)" \(index (?P<i>\d+)\)'),
    ('dup-arg', r'Duplicate argument "(?P<n>.*)" of function "(?P<s>.*)" \(index (?P<i>\d+)\)'),
    ('unused-arg', r'Unused argument "(?P<n>.*)" of function "(?P<s>.*)" \(index (?P<i>\d+)\)'),
    ('unused-var', r'Unused variable "(?P<n>.*)" defined in function "(?P<s>.*)" \(index (?P<i>\d+)\)'),
    ('pointless', r'Pointless statement in function "(?P<s>.*)" \(index (?P<i>\d+)\)'),
    ('pointless', r'Pointless global statement \(index (?P<i>\d+)\)'),
]
PATTERNS = [(k, re.compile('^' + p + '$', re.S)) for k, p in PATTERNS]


def parse_warning(text):
    for kind, pattern in PATTERNS:
        m = pattern.match(text)
        if m:
            d = m.groupdict()
            return [kind, 'f:' + d['s'] if 's' in d else '', d.get('n') or '', int(d['i'])]
    return ['other', '', '', -1]


# ---- edits: what a warning says can be done -------------------------------------------------------

def scopes(model, name):
    """the statement lists with a scope name: (list, function model or None)"""
    if name == '':
        return [(model['statements'], None)]
    res = []
    name = name[2:]

    def walk(stmts):
        for s in stmts:
            if 'function' in s:
                if s['function']['name'] == name:
                    res.append((s['function']['statements'], s['function']))
                walk(s['function']['statements'])
    walk(model['statements'])
    return res


def edited(model, warning):
    kind, scope, name, ix = warning
    new = copy.deepcopy(model)
    found = scopes(new, scope)
    if len(found) != 1:
        return None     # several functions of the name: the message does not say which
    stmts, fn = found[0]
    if kind in ('unused-var', 'unused-arg'):
        fresh = 'verifFresh'
        if fn is None:
            return None
        for s in stmts:
            if 'expr' in s and s['expr'].get('name') == name:
                s['expr']['name'] = fresh
        if 'args' in fn:
            # a duplicate argument is another variable's position
            fn['args'] = [fresh if a == name else a for a in fn['args']]
    elif kind == 'unused-label':
        stmts[:] = [s for s in stmts if s != {'label': name}]
    elif kind == 'pointless':
        if ix >= len(stmts):
            return None
        del stmts[ix]
    else:
        return None
    return new


def run_text(case, model):
    r = runner.run_case({**case, 'model': model, 'ast': model['statements']})
    if 'violation' in r:
        return r['violation'], ''
    t = r['trace']
    o = t['out']
    return json.dumps([t['log'], o['k'], o['e'] if o['k'] == 'err' else '', o['v'], o['h'], o['g']]), (o['e'][0] if o['k'] == 'err' else '')


def lint_case(case):
    b = runner.bs()
    lint = b['bare'].lint_script
    if 'model' in case:
        model = case['model']
        if case.get('valid', True):
            b['model'].validate_script(model)
    else:
        model = b['bare'].parse_script(case['text'])
    before = copy.deepcopy(model)
    text0 = json.dumps(model, sort_keys=False, default=repr)
    try:
        first = lint(model)
        second = lint(model)
        third = lint(copy.deepcopy(model))
    except Exception as exc:  # pylint: disable=broad-except
        return {'violation': f'lint_script raised {type(exc).__name__}: {exc}'}
    if not isinstance(first, list) or not all(isinstance(w, str) for w in first):
        return {'violation': f'lint_script returned {first!r}'}
    after = json.dumps(model, default=repr) == text0 and model == before
    prog = Prog()
    main = prog.code(before['statements'])
    warns = [parse_warning(w) for w in first]
    edits = []
    if case.get('run', True):
        ran = None
        for w in warns:
            new = edited(before, w)
            if new is None:
                continue
            if ran is None:
                ran = run_text(case, copy.deepcopy(before))
            if ran[1] == 'budget':
                break
            run = run_text(case, new)
            edits.append([f'{w[0]} {w[2]}', ran[0], run[0]])
        # what was executed has the same warnings
        if ran is not None:
            model2 = copy.deepcopy(before)
            run_text(case, model2)
            third = third if lint(model2) == third else ['other']
    return {'trace': {'codes': prog.codes, 'fns': prog.fns, 'main': main, 'warn': warns, 'again': first == second == third, 'after': after, 'edits': edits},
            'kinds': sorted({w[0] for w in warns}), 'edits': len(edits)}


# ---- programs with plenty to complain about ---------------------------------------------------------

class LintGen(ModelGen):
    """jump-level models whose functions have unused arguments, variables and labels, duplicates, and pointless statements"""

    def stmts(self, depth, n):
        out = super().stmts(depth, n)
        for _ in range(self.pick([0, 1, 1, 2])):
            k = self.rng.randrange(len(out) + 1)
            out.insert(k, self.pick([
                lambda: s_expr(self.literal()), lambda: s_expr(var(self.pick(NAMES))), lambda: s_expr(binary('+', var('a'), group(unary('-', var('b'))))),
                lambda: s_expr(binary('==', var('arr'), call('hlog', num(1.)))), lambda: s_expr(unary('!', call('hlog', num(2.)))),
                lambda: s_expr(group(call('arrayPush', var('arr'), num(3.)))), lambda: s_expr(num(1.), self.pick(['u1', 'u2', 'a', 'x1'])),
                lambda: s_expr(call('hlog', num(7.)), self.pick(['u1', 'u2', 'hlog'])), lambda: label(self.pick(['n1', 'n2', 'l0'])),
                lambda: s_expr(var(self.pick(['u1', 'u2', 'p', 'q'])), 'u3'), lambda: s_expr(call('if', var('a'), call('hlog', num(4.)), num(5.))),
                lambda: s_return(var('u3')) if self.chance(0.3) else s_expr(num(9.)),
            ])())
        return out


def cases(n):
    for i in range(n):
        rng = rng_for(core.SEED, 'C18', i)
        glob = gen.base_globals(rng)
        glob['q'] = [rng.choice([True, False, None, 1, 0.0, 'a', '']) for _ in range(rng.choice([0, 3, 9]))]
        lim = rng.choice([200, 500])
        base = {'glob': glob, 'lim': lim, 'real_lim': lim, 'debug': rng.random() < 0.2}
        r = rng.random()
        if r < 0.6:
            g = LintGen(rng, size=20)
            g.vars = NAMES + ['arr', 'obj', 'u1']
            g.funcs = [('fa', 1, False), ('fb', 2, False), ('fc', 1, False)]
            stmts = []
            for name in ('fa', 'fb', 'fc'):
                if rng.random() < 0.85:
                    f = g.func(1 if rng.random() < 0.4 else 3)
                    f['function']['name'] = name
                    stmts.append(f)
            stmts += g.stmts(0, rng.choice([0, 3, 6, 10]))
            yield {**base, 'model': {'statements': stmts}}
        else:
            g = gen.ProgGen(rng, max_depth=rng.choice([1, 2, 3]), size=rng.choice([10, 20]))
            ast = g.program()
            # unused things in structured programs
            for s in ast:
                if 'function' in s and rng.random() < 0.7:
                    body = s['function']['statements']
                    for _ in range(rng.choice([1, 2])):
                        body.insert(rng.randrange(len(body) + 1) if body else 0, rng.choice([
                            lambda: s_expr(num(5.), 'un1'), lambda: s_expr(call('hlog', str_('kept')), 'un2'), lambda: label('lbl'), lambda: s_expr(var('a')),
                            lambda: s_expr(binary('*', var('b'), num(2.)))])())
                    if rng.random() < 0.4:
                        s['function']['args'] = s['function'].get('args', []) + ['unarg']
                        s['function']['lastArgArray'] = False
            yield {**base, 'text': gen.text_of(ast)}


def words(n):
    """small scopes: labels and jumps in every order, at the top and in functions"""
    for i in range(n):
        rng = rng_for(core.SEED, 'C18w', i)

        def body():
            out = []
            for _ in range(rng.choice([0, 1, 2, 3, 4, 5])):
                r = rng.random()
                x = rng.choice(['a', 'b', 'c'])
                out.append(label(x) if r < 0.4 else jump(x) if r < 0.55 else jump(x, call('arrayPop', var('q'))) if r < 0.75 else
                           s_expr(call('hlog', num(float(len(out))))) if r < 0.85 else s_expr(num(1.), x) if r < 0.92 else s_expr(var(x)))
            return out
        stmts = body()
        for _ in range(rng.choice([0, 1, 2, 3])):
            args = [rng.choice(['a', 'b', 'c', 'd']) for _ in range(rng.choice([0, 1, 2, 3, 4, 6]))]
            f = s_func(rng.choice(['f', 'g', 'h']), args, body())
            if rng.random() < 0.2:
                f['function']['statements'].insert(0, s_func(rng.choice(['f', 'k']), args[:1], body()))
            stmts.insert(rng.randrange(len(stmts) + 1), f)
        if rng.random() < 0.6:
            stmts.append(s_expr(call('hlog', call('f', num(1.), num(2.)))))
        yield {'model': {'statements': stmts}, 'glob': {'hlog': Host('hlog'), 'f': Host('hlog'), 'q': [True, False, True]}, 'lim': 60, 'real_lim': 60}


CONTEXTS = [lambda e: binary('+', atom_(e), num(1.)), lambda e: binary('&&', num(1.), atom_(e)), lambda e: binary('==', atom_(e), var('g0')),
            lambda e: unary('!', atom_(e)), lambda e: unary('-', atom_(e)), group, lambda e: call('hlog', e), lambda e: call('hlog', num(1.), e),
            lambda e: call('hlog', num(1.), e, num(2.)), lambda e: call('if', e), lambda e: call('if', num(1.), e), lambda e: call('if', num(0.), e, num(1.)),
            lambda e: call('if', num(0.), num(1.), e), lambda e: call('arrayNew', e)]


def atom_(e):
    return group(e) if 'binary' in e else e


def positions():
    """a name used in exactly one place: every place an expression has, in every kind of statement"""
    uses = [var('nm'), call('nm'), call('nm', num(1.)), {'function': {'name': 'nm'}}]
    for ci, c1 in enumerate(CONTEXTS):
        for di, c2 in enumerate([lambda e: e] + CONTEXTS):
            for ui, use in enumerate(uses):
                e = c1(c2(copy.deepcopy(use)))
                for ki in range(5):
                    if di and (ci + di + ui + ki) % 3:
                        continue
                    stmt = [s_expr(e), s_expr(e, 'r'), {'jump': {'label': 'z', 'expr': e}}, s_return(e), s_expr(e, 'nm')][ki]
                    body = [stmt] + ([s_return(var('r'))] if ki == 1 else [label('z')] if ki == 2 else [])
                    local = (ci + di + ui) % 2 and ki != 4
                    f = s_func('f', [] if local else ['other', 'nm'], ([s_expr(call('if', num(1.), var('hlog')), 'nm')] if local else []) + body)
                    yield {'model': {'statements': [f, s_expr(call('hlog', call('f', num(1.), var('hlog')))), s_expr(call('f', num(1.), num(2.)))]},
                           'glob': {'hlog': Host('hlog'), 'nm': 7, 'g0': 5}, 'lim': 60, 'real_lim': 60}


def odd_models():
    """schema-valid models at the edges of the schema"""
    yield {'statements': []}
    for body in ([], [s_return()], [label('')], [jump('')], [s_expr(num(1.), '')], [s_expr(call('f'), 'x')]):
        yield {'statements': [{'function': {'name': '', 'statements': body}}]}
        yield {'statements': [{'function': {'name': 'f', 'args': ['x'], 'statements': body}}] + body}
        yield {'statements': [{'function': {'name': 'f', 'args': ['', ''], 'lastArgArray': True, 'async': True, 'statements': body}}]}
    yield {'statements': [{'include': {'includes': [{'url': ''}]}}, {'include': {'includes': [{'url': 'a', 'system': True}, {'url': 'b'}]}}]}
    yield {'statements': [{'return': {}}, {'return': {'expr': var('')}}, s_expr({'function': {'name': 'f'}})]}
    deep = num(1.)
    for k in range(100):
        deep = binary('+', deep, var('a')) if k % 2 else group(unary('!', deep))
    yield {'statements': [s_expr(deep), s_expr(deep, 'x'), {'jump': {'label': 'z', 'expr': deep}}]}
    nest = [s_expr(num(1.))]
    for k in range(20):
        nest = [s_func(f'n{k}', ['x'], nest + [jump('out')])]
    yield {'statements': nest}


def relation(rep, items, label_):
    res = core.pmap(lint_case, items, soft=10.0)
    recs = []
    which = []
    kinds = {}
    for i, (status, value) in enumerate(res):
        if status == 'skip':
            continue
        if status != 'ok' or 'violation' in value:
            rep.violation(f'{label_}: {value["violation"] if status == "ok" else status + " " + str(value)[-200:]}: {machine.describe(items[i])}',
                          {'case': machine.case_detail(items[i])})
            continue
        recs.append(value['trace'])
        which.append(i)
        for k in value['kinds']:
            kinds[k] = kinds.get(k, 0) + 1
        rep.count('edited_models_run', value['edits'])
    rng = rng_for(core.SEED, 'C18c', label_)
    can = []
    for r in rng.sample(recs, min(len(recs), 40)):
        t = json.loads(json.dumps(r))
        kind = rng.choice(['unknown-label', 'dup-label', 'dup-arg', 'dup-fn', 'unused-var', 'unused-arg', 'unused-label', 'drop', 'again', 'edit'])
        if kind == 'drop':
            ws = [w for w in t['warn'] if w[0] in ('unknown-label', 'dup-label', 'dup-arg', 'dup-fn')]
            if not ws:
                continue
            t['warn'] = [w for w in t['warn'] if w[0] != ws[0][0] or w[1:3] != ws[0][1:3]]
        elif kind == 'again':
            t[rng.choice(['again', 'after'])] = False
        elif kind == 'edit':
            t['edits'].append(['x', 'a', 'b'])
        else:
            t['warn'].append([kind, '', 'zzNone', 0])
        can.append((kind, t))
    verdicts = core.validate('Trace_Lint', recs + [t for _, t in can], weight=lambda r: 5 + sum(map(len, r['codes'])) + sum(len(e[1]) for e in r['edits']) // 50)
    for k, i in enumerate(which):
        if verdicts[k][0]:
            rep.violation(f'{label_}: {verdicts[k][0]}: {machine.describe(items[i])}',
                          {'case': machine.case_detail(items[i]), 'record': recs[k]})
    for k, (kind, t) in enumerate(can):
        rep.canaries += 1
        if not verdicts[len(recs) + k][0]:
            rep.canaries_missed.append((label_, kind))
    for k, n in kinds.items():
        rep.count('models_with_' + k, n)
    rep.count('models', len(items))
    return kinds


def check(rep):
    quick = core.TIER == 'quick'
    core.require_model('MC_Lint', None if quick else 'MC_Lint_deep.cfg')
    some = list(cases(1200 if quick else 20000))
    kinds = relation(rep, some, 'random')
    small = list(words(1500 if quick else 20000))
    kinds2 = relation(rep, small, 'scopes')
    relation(rep, list(positions()), 'positions')
    missing = {k for k, _ in PATTERNS} - set(kinds) - set(kinds2)
    if missing and not rep.violations:
        raise core.MachineryError(f'no model with warnings of the kinds {missing}')
    relation(rep, [{'model': m, 'run': False} for m in odd_models()], 'odd')
    shipped = sorted(globmod.glob(os.path.join(os.path.dirname(core.REPO_SRC.rstrip('/')), '**', '*.bare'), recursive=True))
    texts = []
    for path in shipped:
        with open(path, encoding='utf-8') as f:
            texts.append({'text': f.read(), 'run': False, 'desc': path})
    relation(rep, texts, 'shipped')
    # a run that raises "Unknown jump label" names a label of the warnings: the machine says when that is
    machine.run_and_validate(rep, [{**c, 'desc': machine.describe(c)} for c in small[:400 if quick else 5000]], 'label-error', min_ok=0.9)
