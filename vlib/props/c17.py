"""C17 includes resolve relative to the including file and run in global scope"""
from .. import core, gen, incgen, machine
from ..gen import call, rng_for, s_expr, s_if, s_return, str_, var


def tree_cases(n):
    for i in range(n):
        rng = rng_for(core.SEED, 'C17t', i)
        case = incgen.inc_case(rng, rng.choice([3, 6, 10]), rng.choice([0, 0, 0.1, 0.3]))
        if rng.random() < 0.03:
            case['fetch'] = False
        case['debug'] = rng.random() < 0.2
        if rng.random() < 0.1:
            case['log'] = False
        yield case


def path_cases(quick):
    """two levels of references: every base with every pair of spellings"""
    bases = [None, 'm.bare', 'd/m.bare', '/r/a/m.bare', 'http://h.com/a/m.bare', 'http://h.com/m.bare?q=a/b', '../m.bare', '/m.bare', 'd//m.bare', '', 'x:m.bare', './m.bare', '//h/m.bare']
    prefixes = [None, ':inc:/', 'http://s.com/l/', 'lib/', '/usr/lib', '', 'lib/p.bare', 'x:', '/']
    refs = [(False, r) for r in ('n.bare', 's/n.bare', '../n.bare', './n.bare', 's/../n.bare', '/a/n.bare', 'https://x.org/q/n.bare', 'file:///z/n.bare',
                                 'ab:n.bare', 'data:,n', 'Ab:n.bare', '/', 'a b/\u00e9.bare')] + [(True, 'n.bare'), (True, 's/n.bare'), (True, '/a/n.bare'), (True, 'https://x.org/n.bare')]
    combos = [(b, p, r1, r2) for b in bases for p in prefixes for r1 in refs for r2 in refs]
    rng = rng_for(core.SEED, 'C17p')
    if quick:
        combos = rng.sample(combos, 1000)
    for b, p, r1, r2 in combos:
        def inc(r):
            return {'include': {'includes': [{'url': r[1], 'system': True} if r[0] else {'url': r[1]}]}}

        def log(t):
            return s_expr(call('systemLog', str_(t)))
        asts = {}

        def place(here, r, stmts):
            url = incgen.resolve(p if r[0] and p is not None else here, r[1])
            asts.setdefault(url, stmts)
            return url
        u1 = place(b, r1, [log('one'), inc(r2), log('one again'), s_return(), log('never')])
        place(u1, r2, [log('two'), s_expr(str_('v'), 'g1')])
        place(b, r2, [log('three')])
        ast = [log('start'), s_if([(var('true'), [inc(r1)])]), log('back'), inc(r2), log('end')]
        if u1 in (incgen.resolve(p if r2[0] and p is not None else b, r2[1]), incgen.resolve(p if r2[0] and p is not None else u1, r2[1])):
            continue
        yield {'text': gen.text_of(ast), 'ast': ast, 'files': {u: gen.text_of(a) for u, a in asts.items()}, 'asts': asts, 'base': b, 'prefix': p, 'fetch': True,
               'glob': {}, 'real_lim': 1000, 'names': ['g1'], 'desc': f'base {b} prefix {p}: {r1} then {r2}'}


def cli_cases(n):
    """the command line with files on disk and the shipped include files"""
    import importlib.resources
    top = importlib.resources.files('bare_script.include')
    shipped = {name: top.joinpath(name).read_text(encoding='utf-8') for name in ('diff.bare',)}
    shipped['nope.bare'] = None
    for i in range(n):
        case = incgen.cli_case(rng_for(core.SEED, 'C17c', i), shipped)
        if case is not None:
            yield case


def check(rep):
    quick = core.TIER == 'quick'
    core.require_model('MC_Include', None if quick else 'MC_Include_deep.cfg')
    machine.run_and_validate(rep, list(tree_cases(900 if quick else 15000)), 'tree', min_ok=0.9)
    machine.run_and_validate(rep, list(path_cases(quick)), 'paths', min_ok=0.95)
    machine.run_and_validate(rep, list(cli_cases(350 if quick else 3000)), 'command-line', min_ok=0.8, kinds=['log-drop', 'log-extra', 'log-swap'])
