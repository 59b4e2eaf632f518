"""Shared driver of the machine-based checks: record executions, validate them against the specification, canaries"""
import copy

from . import core, runner
from .gen import rng_for


def corrupt(trace, kind):
    """A corrupted copy of a recorded execution the specification has to reject (None: not applicable)"""
    t = copy.deepcopy(trace)
    out = t['out']
    if kind == 'log-drop':
        if not t['log']:
            return None
        t['log'].pop(len(t['log']) // 2)
    elif kind == 'log-extra':
        t['log'].append(['L', [120, 33]])
    elif kind == 'log-swap':
        for i in range(len(t['log']) - 1):
            if t['log'][i] != t['log'][i + 1]:
                t['log'][i], t['log'][i + 1] = t['log'][i + 1], t['log'][i]
                break
        else:
            return None
    elif kind == 'result':
        if out['k'] == 'ok':
            out['v'] = ['s', [63, 63, 63]] if out['v'][0] != 's' else ['n', 424242]
        else:
            out['k'] = 'ok'
    elif kind == 'exc':
        out['k'] = 'exc'
    elif kind == 'global':
        if not t['globs'] or not out['g']:
            return None
        i = len(out['g']) // 2
        out['g'][i][1] = ['s', [63, 63, 63]] if out['g'][i][1][0] != 's' else ['n', 424242]
    elif kind == 'global-extra':
        if not t['globs']:
            return None
        out['g'].append(['zzUnexpected', ['z']])
    elif kind == 'count':
        if out['n'] < 0 or out['k'] != 'ok':
            return None
        out['n'] += 1
    return t


CANARY_KINDS = ['log-drop', 'log-extra', 'log-swap', 'result', 'exc', 'global', 'global-extra', 'count']


def weight(t):
    return 30 + len(t['log']) * 2 + t.get('_w', 0)


def run_and_validate(rep, cases, label, module='Trace_Run', soft=5.0, keys=None, kinds=None, canaries=24, min_ok=0.5):
    """cases -> real executions -> verdicts; violations go to the report"""
    results = core.pmap(runner.run_case, cases, soft=soft)
    records = []
    which = []
    for i, (status, value) in enumerate(results):
        if status == 'hang':
            rep.violation(f'{label}: the execution does not end: {describe(cases[i])}', {'case': case_detail(cases[i])})
        elif status == 'error':
            rep.violation(f'{label}: the execution cannot be observed: {value.strip().splitlines()[-1]}: {describe(cases[i])}',
                          {'case': case_detail(cases[i]), 'error': value})
        elif status == 'ok' and 'violation' in value:
            rep.violation(f'{label}: {value["violation"]}: {describe(cases[i])}', {'case': case_detail(cases[i])})
        elif status == 'ok':
            t = value['trace']
            t['_w'] = max(0, value['count'])
            records.append(t)
            which.append(i)
    base = len(records)
    # canaries
    rng = rng_for(core.SEED, 'canary', label)
    can = []
    kinds = kinds or CANARY_KINDS
    if base:
        tries = 0
        while len(can) < canaries and tries < canaries * 8:
            tries += 1
            k = rng.randrange(base)
            kind = kinds[tries % len(kinds)]
            t = corrupt(records[k], kind)
            if t is not None:
                can.append((k, kind, t))
    weights = [weight(t) for t in records] + [weight(t) for _, _, t in can]
    for t in records:
        t.pop('_w', None)
    for _, _, t in can:
        t.pop('_w', None)
    allrecs = records + [t for _, _, t in can]
    wmap = {id(t): w for t, w in zip(allrecs, weights)}
    verdicts = core.validate(module, allrecs, weight=lambda t: wmap[id(t)])
    nopen = 0
    for k, i in enumerate(which):
        clause, extra = verdicts[k]
        if clause:
            rep.violation(f'{label}: {clause}: {describe(cases[i])}',
                          {'case': case_detail(cases[i]), 'clause': clause, 'extra': extra, 'error': results[i][1].get('error'),
                           'trace': records[k]})
        if extra.startswith('"open"'):
            nopen += 1
    rep.count('open_outcomes', nopen)
    rep.count('executions', len(cases))
    for c, (k, kind, _) in enumerate(can):
        clause, extra = verdicts[base + c]
        if verdicts[k][0] or verdicts[k][1].startswith('"open"'):
            rep.canaries += 1
            continue
        rep.canaries += 1
        if not clause:
            rep.canaries_missed.append((label, kind, describe(cases[which[k]])))
    for i in which[:2]:
        rep.samples.append(describe(cases[i], 500))
    if not rep.violations and base and nopen > (1 - min_ok) * base:
        raise core.MachineryError(f'{label}: {nopen} of {base} executions are left open by the specification')
    return results, verdicts[:base], which


def describe(case, n=300):
    if 'desc' in case:
        return case['desc'][:n]
    if 'text' in case:
        return case['text'][:n]
    if 'exprtext' in case:
        return case['exprtext'][:n]
    return safe_repr(case.get('expr', case.get('model')))[:n]


def safe_repr(v):
    try:
        return repr(v)
    except Exception as exc:  # pylint: disable=broad-except
        return f'<{type(exc).__name__}>'


def case_detail(case):
    return {k: safe_repr(v) if not isinstance(v, (str, int, float, bool, type(None))) else v for k, v in case.items()}


def describe_vals(case):
    return safe_repr({k: v for k, v in case['glob'].items()})[:400]
