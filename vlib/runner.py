"""Run the code under test on one case and record the execution as a trace for the specification"""
import contextlib
import copy
import datetime
import io
import os
import re
import shutil
import tempfile

from . import core
from .enc import Enc, Prog, cps, enc_dt, enc_expr, enc_num, model_names


class Host:
    """A host function in the globals of a case"""
    def __init__(self, name):
        self.name = name


class Lib:
    """A library function in the globals of a case"""
    def __init__(self, name):
        self.name = name


_BS = {}


def bs():
    if not _BS:
        core.import_repo()
        import bare_script
        import bare_script.library
        import bare_script.model
        import bare_script.parser
        import bare_script.runtime
        import bare_script.value
        import bare_script.options
        _BS['bare'] = bare_script
        _BS['lib'] = bare_script.library
        _BS['parser'] = bare_script.parser
        _BS['runtime'] = bare_script.runtime
        _BS['value'] = bare_script.value
        _BS['model'] = bare_script.model
        _BS['options'] = bare_script.options
    return _BS


RE_DEBUG_FAIL = re.compile(r'^BareScript: Function "(.*?)"', re.S)


def classify(text, log):
    if text.startswith('BareScript:'):
        m = RE_DEBUG_FAIL.match(text)
        if m:
            log.append(['F', m.group(1)])
        return
    log.append(['L', cps(text)])


def error_enc(exc):
    text = str(exc)
    b = bs()
    if isinstance(exc, b['parser'].BareScriptParserError):
        m = re.match(r'Included from "(.*?)"', text, re.S)
        return ['parser', cps(m.group(1)) if m else []]
    m = re.match(r'^Unknown jump label "(.*)"$', text, re.S)
    if m:
        return ['label', m.group(1)]
    if text.startswith('Exceeded maximum script statements'):
        return ['budget']
    m = re.match(r'^Include of "(.*)" failed$', text, re.S)
    if m:
        return ['include', cps(m.group(1))]
    return ['other']


def instantiate(value, hosts, memo=None):
    """A fresh copy of a case's value (aliasing kept) with host and library functions filled in"""
    memo = {} if memo is None else memo
    if id(value) in memo:
        return memo[id(value)]
    if isinstance(value, Host):
        return hosts[value.name]
    if isinstance(value, Lib):
        return bs()['lib'].SCRIPT_FUNCTIONS[value.name]
    if isinstance(value, list):
        res = []
        memo[id(value)] = res
        res.extend(instantiate(x, hosts, memo) for x in value)
        return res
    if isinstance(value, dict):
        res = {}
        memo[id(value)] = res
        for k, x in value.items():
            res[k] = instantiate(x, hosts, memo)
        return res
    return value


def make_hosts(log, funcs, loose=False):
    b = bs()

    def hlog(args, _):
        e = Enc(funcs, loose)
        vals = [e.val(a) for a in args]
        log.append(['O', vals, e.heap])
        return args[0] if args else None

    def hargs(args, _):
        return args

    def hfail(*_):
        raise KeyError('host')

    def hfail7(*_):
        raise b['value'].ValueArgsError('value', None, 7)

    def hrt(*_):
        raise b['runtime'].BareScriptRuntimeError('host runtime error')
    def hcall(args, options):
        return args[0](args[1:], options)
    res = {'hlog': hlog, 'hcall': hcall, 'hargs': hargs, 'hfail': hfail, 'hfail7': hfail7, 'hrt': hrt}
    for name, fn in res.items():
        funcs[id(fn)] = ['host', name]
    return res


def lib_funcs():
    return {id(fn): ['lib', name] for name, fn in bs()['lib'].SCRIPT_FUNCTIONS.items()}


def run_case(case):
    """case: dict with
         text or model (or ast: structured statements, rendered as text by the generator) ; or expr (expression model) / exprtext
         ast (optional) the specification's program when it is not the model itself
         glob, locals, lim, debug, log(bool), base, prefix, files {url: text|None|('raise',)}, asts {url: ast}
         check_count, globs, hidden
       Returns {'trace': record, 'info': ...} or {'violation': text}"""
    b = bs()
    log = []
    funcs = lib_funcs()
    hosts = make_hosts(log, funcs, bool(case.get('loose')))
    memo = {}
    glob = {k: instantiate(v, hosts, memo) for k, v in case.get('glob', {}).items()}
    locals_ = None
    if case.get('locals') is not None:
        locals_ = {k: instantiate(v, hosts, memo) for k, v in case['locals'].items()}
    mode = 'expr' if ('expr' in case or 'exprtext' in case) else 'script'
    # the initial state (values of a loose case are not encoded)
    loose = bool(case.get('loose'))
    enc = Enc(funcs, loose)
    genc = [[k, enc.val(v)] for k, v in glob.items()]
    lenc = [] if locals_ is None else [[[k, enc.val(v)] for k, v in locals_.items()]]
    heap0 = copy.deepcopy(enc.heap)

    prog = Prog()
    names = set(case.get('names', ()))
    model = None
    if mode == 'script':
        if 'model' in case:
            model = case['model']
        else:
            try:
                model = b['bare'].parse_script(case['text'])
            except b['parser'].BareScriptParserError as exc:
                return {'violation': f'generated program rejected: {exc}'}
            except Exception as exc:  # pylint: disable=broad-except
                return {'violation': f'parse_script raised {type(exc).__name__}: {exc}'}
        spec_stmts = case['ast'] if 'ast' in case else model['statements']
        main = prog.code(spec_stmts)
        expr = ['num', ['n', 0]]
        model_names(spec_stmts, names)
    else:
        if 'expr' in case:
            model = case['expr']
        else:
            try:
                model = b['bare'].parse_expression(case['exprtext'])
            except Exception as exc:  # pylint: disable=broad-except
                return {'violation': f'generated expression rejected: {type(exc).__name__}: {exc}'}
        prog.code([])
        main = 0
        expr = enc_expr(case.get('ast', model))
        model_names([{'expr': {'expr': case.get('ast', model)}}], names)
    names.update(glob)
    if locals_:
        names.update(locals_)
    files = []
    for url, text in case.get('files', {}).items():
        if not isinstance(text, str):
            files.append([cps(url), 'fail', 0])
            continue
        if url in case.get('asts', {}):
            if case['asts'][url] is None:
                files.append([cps(url), 'syntax', 0])
                continue
            stmts = case['asts'][url]
        else:
            try:
                stmts = b['bare'].parse_script(text)['statements']
            except b['parser'].BareScriptParserError:
                files.append([cps(url), 'syntax', 0])
                continue
        files.append([cps(url), 'ok', prog.code(stmts)])
        model_names(stmts, names)

    if any('systemFetch' in (t or '') for t in [case.get('text'), *(t for t in case.get('files', {}).values() if isinstance(t, str))]):
        for f in files:
            text = case['files'][''.join(map(chr, f[0]))]
            f.append(cps(text) if isinstance(text, str) else [])

    exprs = []
    for text, emodel in case.get('exprs', {}).items():
        if emodel is not None:
            model_names([{'expr': {'expr': emodel}}], names)
        exprs.append([cps(text), ['bad'] if emodel is None else enc_expr(emodel)])

    fetch = bool(case.get('fetch', 'files' in case))
    if case.get('cli'):
        out, fetched, exc_text = run_cli(case, log)
        trace = {
            'codes': prog.codes, 'fns': prog.fns, 'main': main, 'expr': expr, 'loc': lenc, 'glob': genc, 'heap': heap0,
            'lim': 0, 'debug': False, 'haslog': True, 'inj': True, 'bi': False, 'names': [[n, cps(n)] for n in sorted(names)], 'exprs': [],
            'base': [cps(case['base'])], 'prefix': [cps(case['prefix'])], 'fetch': 'quiet', 'files': files, 'hidden': [], 'globs': False,
            'unk': bool(case.get('unk')), 'loose': False, 'log': fetched, 'out': out}
        return {'trace': trace, 'error': exc_text, 'count': 0}

    def fetch_fn(req):
        log.append(['U', cps(req['url'])])
        text = case['files'].get(req['url'])
        if not isinstance(text, (str, type(None))):
            raise OSError('fetch failed')
        return text

    lim = case.get('lim', 0)
    haslog = bool(case.get('log', True))
    debug = bool(case.get('debug', False))
    options = {'globals': glob, 'maxStatements': case.get('real_lim', lim)}
    if haslog:
        options['logFn'] = lambda text: classify(text, log)
    if debug:
        options['debug'] = True
    if fetch:
        options['fetchFn'] = fetch_fn
    if case.get('prefix') is not None:
        options['systemPrefix'] = case['prefix']
    if case.get('base') is not None:
        base = case['base']
        options['urlFn'] = lambda url: b['options'].url_file_relative(base, url)
    before = _model_key(model)
    inj = mode == 'script' or bool(case.get('inj'))
    if mode == 'expr' and inj:
        for name, fn in b['lib'].SCRIPT_FUNCTIONS.items():
            glob.setdefault(name, fn)
    bi = mode == 'expr' and case.get('builtins', True)
    out = {'k': 'ok', 'v': ['z'], 'h': [], 'e': ['other'], 'g': [], 'missing': [], 'n': -1}
    result = None
    exc_text = ''
    clock = [enc_dt(datetime.datetime.now())]
    try:
        if mode == 'script':
            result = b['bare'].execute_script(model, options)
        else:
            if 'statementCount' not in options:
                options['statementCount'] = 0
            if case.get('direct'):
                result = direct(case, glob, None if case.get('nooptions') else options)
            else:
                result = b['bare'].evaluate_expression(model, None if case.get('nooptions') else options, locals_, bi)
    except (b['runtime'].BareScriptRuntimeError, b['parser'].BareScriptParserError) as exc:
        out['k'] = 'err'
        out['e'] = error_enc(exc)
        exc_text = str(exc)
    except core.Hang:
        raise
    except Exception as exc:  # pylint: disable=broad-except
        out['k'] = 'exc'
        exc_text = f'{type(exc).__name__}: {exc}'
    clock.append(enc_dt(datetime.datetime.now()))
    if _model_key(model) != before:
        return {'violation': 'executing the model modified it'}
    enc = Enc(funcs, loose)
    if out['k'] == 'ok':
        out['v'] = enc.val(result)
    glob = options['globals'] if mode == 'script' else glob
    libf = b['lib'].SCRIPT_FUNCTIONS
    hide = case.get('hide', '__bareScript')
    out['g'] = [[k, enc.val(v)] for k, v in glob.items() if not (k in libf and v is libf[k]) and not (hide and k.startswith(hide))]
    out['missing'] = sorted(k for k in libf if k not in glob) if inj else []
    out['h'] = enc.heap
    if case.get('check_count') and mode == 'script':
        out['n'] = options['statementCount']
    trace = {
        'codes': prog.codes, 'fns': prog.fns, 'main': main, 'expr': expr, 'loc': lenc, 'glob': genc, 'heap': heap0,
        'lim': lim, 'debug': debug, 'haslog': haslog, 'inj': inj, 'bi': bool(bi),
        'names': [[n, cps(n)] for n in sorted(names)], 'exprs': exprs,
        'base': [] if case.get('base') is None else [cps(case['base'])],
        'prefix': [] if case.get('prefix') is None else [cps(case['prefix'])],
        'fetch': 'yes' if fetch else 'no', 'files': files, 'hidden': list(case.get('hidden', [])), 'globs': bool(case.get('globs', True)),
        'unk': bool(case.get('unk')), 'loose': loose, 'log': [] if loose else log, 'out': out,
    }
    if trace['unk']:
        trace['clock'] = clock
    if case.get('twice'):
        # the same model object again, with identical globals
        again = run_case({**case, 'model': model, 'ast': case.get('ast', model['statements']), 'twice': False})
        if 'violation' in again:
            return again
        if {**again['trace'], 'clock': 0} != {**trace, 'clock': 0}:
            return {'violation': 'executing the model a second time with identical globals gives another result'}
    return {'trace': trace, 'error': exc_text, 'count': options.get('statementCount', -1)}


def direct(case, glob, options):
    """the exported function that the case's expression calls, by the host; an exception is a failing call"""
    name, kind = case['direct']
    args = [glob.get(a['variable']) for a in case['expr']['function'].get('args', [])]
    fn = getattr(bs()['bare'], name)
    args += [None] * (kind - len(args))
    if name == 'join_data':
        args[4] = bool(args[4])
    if name == 'sort_data' and case.get('tuples'):
        args[1] = [tuple(x) for x in args[1]]
    kwargs = {'options': options} if name in ('add_calculated_field', 'filter_data', 'join_data') else {}
    try:
        result = fn(*args, **kwargs)
    except (bs()['runtime'].BareScriptRuntimeError, core.Hang):
        raise
    except Exception:  # pylint: disable=broad-except
        return None
    return args[0] if name == 'validate_data' else result


def run_cli(case, log):
    """the command line: the files are written to a scratch directory, which is the working directory of the run"""
    import bare_script.bare as cli   # pylint: disable=import-outside-toplevel
    top = tempfile.mkdtemp(prefix='cli-')
    here = os.getcwd()
    stdout = io.StringIO()
    code = -1
    try:
        work = os.path.join(top, 'w/o/r/k')
        os.makedirs(work)
        for path, text in list(case['files'].items()) + [(case['base'], case['text'])]:
            if isinstance(text, str) and not path.startswith(':'):
                path = os.path.normpath(os.path.join(work, path))
                if not path.startswith(top + os.sep):
                    raise core.MachineryError('a file outside the scratch directory')
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, 'w', encoding='utf-8') as f:
                    f.write(text)
        os.chdir(work)
        with contextlib.redirect_stdout(stdout):
            try:
                cli.main([case['base']])
            except SystemExit as exc:
                code = exc.code
    finally:
        os.chdir(here)
        shutil.rmtree(top)
    lines = stdout.getvalue().split('\n')
    if lines[-1] == '':
        lines.pop()
    out = {'k': 'code', 'v': ['z'], 'h': [], 'e': ['other'], 'g': [], 'missing': [], 'n': -1, 'code': code if isinstance(code, int) else -1}
    text = ''
    if code == 1 and case['base'] + ':' in lines:
        at = lines.index(case['base'] + ':')
        text = '\n'.join(lines[at + 1:])
        lines = lines[:at]
        out['k'] = 'err'
        m = re.match(r'Included from "(.*?)"', text)
        f = re.match(r'Include of "(.*)" failed$', text)
        u = re.match(r'Unknown jump label "(.*)"$', text)
        out['e'] = ['parser', cps(m.group(1))] if m else ['include', cps(f.group(1))] if f else ['label', u.group(1)] if u else ['other']
    return out, [['L', cps(line)] for line in lines], text


def _model_key(model):
    return repr(model)
