"""Random trees of included files"""
import posixpath
import re

from .gen import ProgGen, binary, call, num, s_expr, s_func, s_if, s_return, s_while, str_, text_of, unary, var


def is_url(t):
    i = 0
    while i < len(t) and 'a' <= t[i] <= 'z':
        i += 1
    return i > 0 and t[i:i + 1] == ':'


def norm(t):
    parts = [p for p in t.split('/') if p not in ('', '.')]
    lead = '/' if t.startswith('/') else ''
    return lead + '/'.join(parts) or '.'


def resolve(file, ref):
    """where the generator puts the file (the specification decides whether the reference leads there)"""
    if file is None or is_url(ref):
        return ref
    if ref.startswith('/'):
        return norm(ref)
    if is_url(file):
        return file[:file.rfind('/') + 1] + ref
    return posixpath.join(posixpath.dirname(file), norm(ref))


# a location with another spelling of the same file on disk
RE_DOWN_UP = re.compile(r'(^|/)(?!\.\./)[^/]+/\.\./')


class IncGen:
    def __init__(self, rng, size=7, bad=0.08, cli=False, shipped=()):
        self.rng = rng
        self.bad = bad
        self.files = {}
        self.asts = {}
        self.left = size
        self.serial = 0
        self.base = rng.choice([None, 'main.bare', 'dir/main.bare', 'dir/sub/main.bare', '/root/app/main.bare', 'http://host.com/a/main.bare', '../up/main.bare',
                                'https://host.com/main.bare?x=1'])
        self.prefix = rng.choice([None, ':bare-include:/', 'http://sys.com/lib/', '/usr/share/bare/', 'inc/', ''])
        self.funcs = []
        self.cli = cli
        self.fetches = not cli and rng.random() < 0.4
        self.shipped = shipped
        if cli:
            self.base = rng.choice(['main.bare', 'dir/main.bare', './main.bare', 'd1/d 2/main.bare'])
            self.prefix = ':bare-include:/'

    def ref(self):
        k = self.serial
        self.serial += 1
        name = self.rng.choice([f'n{k}.bare', f'n{k}.bare', f'f {k}.bare', f"it's{k}.bare", f'n{k}'])
        style = self.rng.random()
        if self.cli and style >= 0.67:
            return (True, self.rng.choice(list(self.shipped))) if style > 0.9 else (False, name)
        if style < 0.3:
            return False, name
        if style < 0.45:
            return False, 'sub/' + name
        if style < 0.6:
            return False, '../' + name
        if style < 0.67:
            return False, self.rng.choice(['./', 'sub/../', 'a/b/', '../../', 'sub/./', 'x//']) + name
        if style < 0.77:
            return False, '/abs/' + name
        if style < 0.87:
            return False, self.rng.choice(['http://h.com/d/', 'https://h.com/', 'file:/x/', 'x:']) + name
        return True, self.rng.choice(['', 'lib/', '']) + name

    def include(self, here, depth):
        """an include statement of one or more files"""
        incs = []
        for _ in range(self.rng.choice([1, 1, 1, 2, 3])):
            if self.files and self.rng.random() < 0.25 and getattr(self, 'refs', None):
                system, ref = self.rng.choice(self.refs)
            else:
                system, ref = self.ref()
                self.refs = getattr(self, 'refs', []) + [(system, ref)]
            url = resolve(self.prefix if system and self.prefix is not None else here, ref)
            if url not in self.files:
                self.make(url, depth + 1)
            inc = {'url': ref}
            if system:
                inc['system'] = True
            incs.append(inc)
        return {'include': {'includes': incs}}

    def make(self, url, depth):
        self.left -= 1
        r = self.rng.random()
        if self.cli and url.startswith(':bare-include:/'):
            self.files[url] = self.shipped.get(url[15:]) if self.shipped else None
            return url
        if r < self.bad / 2:
            self.files[url] = None
        elif r < self.bad * 0.7:
            self.files[url] = 'raise'
        elif r < self.bad:
            self.files[url] = 'systemLog("x")\nx = (1 +\n'
            self.asts[url] = None
        else:
            self.files[url] = ''        # (while its includes are made)
            self.asts[url] = []
            ast = self.file(url, depth) if self.rng.random() > 0.1 else []
            self.asts[url] = ast
            self.files[url] = text_of(ast)
            if not ast:
                self.files[url] = self.rng.choice(['', '', '\n', '# nothing\n', '  '])
        return url

    def log(self, what):
        return s_expr(call('systemLog', binary('+', str_(what + ' '), call('stringNew', var('cnt')))))

    def guarded_include(self, here, depth):
        """an include that is performed a bounded number of times, whatever includes what"""
        return [s_expr(binary('+', var('cnt'), num(1.)), 'cnt'), s_if([(binary('<', var('cnt'), num(12.)), [self.include(here, depth)])])]

    def fetch(self, tag):
        """a log line of what systemFetch gives"""
        rng = self.rng

        def url():
            known = [ref for system, ref in getattr(self, 'refs', []) if not system]
            return str_(rng.choice(known) if known and rng.random() < 0.75 else rng.choice(['nope.bare', '../n0.bare', 'http://h.com/d/n1.bare', '', 'sub/']))

        def request():
            r = rng.random()
            if r < 0.5:
                return url()
            if r < 0.85:
                return call('objectNew', str_('url'), url(), *([str_('body'), str_('b')] if rng.random() < 0.3 else []),
                            *([str_('headers'), call('objectNew', str_('h'), str_('v'))] if rng.random() < 0.3 else []))
            return rng.choice([num(1.), call('objectNew'), call('objectNew', str_('uri'), url()), call('objectNew', str_('url'), num(1.)), call('arrayNew', url()),
                               call('objectNew', str_('url'), url(), str_('body'), num(2.)), call('objectNew', str_('url'), url(), str_('headers'), url()),
                               call('objectNew', str_('url'), url(), str_('headers'), call('objectNew', str_('h'), num(1.))), var('null')])
        args = [request() if rng.random() < 0.6 else call('arrayNew', *[request() for _ in range(rng.choice([0, 1, 2, 2, 3]))])]
        if rng.random() < 0.05:
            args = rng.choice([[], args * 2])
        return s_expr(call('systemLog', binary('+', str_(tag + ' fetch '), call('jsonStringify', call('systemFetch', *args)))))

    def file(self, here, depth):
        rng = self.rng
        self.serial += 1
        tag = f'F{self.serial}'
        out = [self.log(tag)]
        for _ in range(rng.choice([1, 2, 3, 4])):
            r = rng.random()
            if r < 0.4 and depth < 4 and self.left > 0:
                out += self.guarded_include(here, depth)
                if rng.random() < 0.6:
                    out.append(self.log(tag + '-after'))
            elif r < 0.5:
                out.append(s_expr(str_(tag), rng.choice(['g1', 'g2', 'arr'])))
            elif r < 0.62 and depth < 3 and self.left > 0:
                # an include inside a function: relative to the file that defines the function
                self.serial += 1
                name = f'fn{self.serial}'
                body = [s_expr(binary('+', call('if', unary('!', var('p')), num(0.), var('p')), num(1.)), 'p'), self.log(name), self.include(here, depth + 1),
                        *([self.fetch(name)] if self.fetches and rng.random() < 0.5 else []), s_expr(str_('local'), 'g1'), s_return(var('p'))]
                out.append(s_func(name, ['p'], [s_expr(call('systemGlobalSet', str_('cnt'), binary('+', var('cnt'), num(1.)))),
                                                s_if([(binary('<', var('cnt'), num(12.)), body)])]))
                self.funcs.append(name)
                if rng.random() < 0.6:
                    out.append(s_expr(call(name, num(5.)), 'r1'))
            elif r < 0.72 and self.funcs:
                f = rng.choice(self.funcs)
                out.append(s_if([(binary('==', call('systemType', var(f)), str_('function')), [s_expr(call(f, num(1.)), 'r2')])]))
            elif r < 0.8:
                out.append(s_return(num(1.)) if rng.random() < 0.4 else s_if([(binary('>', var('cnt'), num(float(rng.choice([1, 3, 9])))), [s_return(num(2.))])]))
            elif r < 0.86:
                self.serial += 1
                w = f'w{self.serial}'
                out += [s_expr(num(0.), w), s_while(binary('<', var(w), num(2.)), [s_expr(binary('+', var(w), num(1.)), w), self.log(tag + w)] + (
                    self.guarded_include(here, depth) if depth < 2 and self.left > 0 and rng.random() < 0.5 else []))]
            else:
                out.append(self.fetch(tag) if self.fetches else self.log(tag + '.'))
        return merge(out)

    def program(self):
        return merge([s_expr(num(0.), 'cnt')] + self.file(self.base, 0) + self.file(self.base, 0) + ([s_return(var('g1'))] if self.rng.random() < 0.5 else []))


def merge(stmts):
    """adjacent include lines are one statement"""
    out = []
    for s in stmts:
        if 'include' in s and out and 'include' in out[-1]:
            out[-1]['include']['includes'].extend(s['include']['includes'])
        else:
            out.append(s)
    return out


def inc_case(rng, size=7, bad=0.08):
    g = IncGen(rng, size, bad)
    ast = g.program()
    files = {u: (('raise',) if t == 'raise' else t) for u, t in g.files.items()}
    return {'text': text_of(ast), 'ast': ast, 'files': files, 'asts': dict(g.asts), 'base': g.base, 'prefix': g.prefix, 'fetch': True, 'glob': {}, 'real_lim': 100000,
            'names': ['cnt', 'g1', 'g2', 'arr', 'p', 'r1', 'r2']}


def cli_case(rng, shipped, size=6, bad=0.1):
    g = IncGen(rng, size, bad, True, shipped)
    ast = g.program()
    # everything has to stay inside the scratch directory of the run
    for url in g.files:
        if not url.startswith(':') and (posixpath.normpath('w/o/r/k/' + url).startswith('..') or RE_DOWN_UP.search(url)):
            return None
    files = {u: (('raise',) if t == 'raise' else t) for u, t in g.files.items()}
    if rng.random() < 0.5:
        ast.append(s_return(rng.choice([num(3.), num(255.), num(256.), num(1.5), str_(''), str_('x'), unary('-', num(1.)), var('cnt'), var('true')])))
    return {'cli': True, 'text': text_of(ast), 'ast': ast, 'files': files, 'asts': dict(g.asts), 'base': g.base, 'prefix': g.prefix, 'fetch': True, 'glob': {},
            'names': ['cnt', 'g1', 'g2', 'arr', 'p', 'r1', 'r2'], 'unk': True}
