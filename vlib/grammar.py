"""Encoding of parsed models for the Grammar specification, and generation of source text"""
import random

from .enc import cps, enc_num
from .gen import OPS

# ---- encoding -------------------------------------------------------------------------------

BAD = ['bad']


def tree(e):
    """An expression model; anything that is none is <<"bad">>"""
    if not isinstance(e, dict) or len(e) != 1:
        return BAD
    (k, v), = e.items()
    if k == 'number':
        return ['num', enc_num(v)] if isinstance(v, (int, float)) and not isinstance(v, bool) else BAD
    if k == 'string':
        return ['str', cps(v)] if isinstance(v, str) else BAD
    if k == 'variable':
        return ['var', cps(v)] if isinstance(v, str) else BAD
    if k == 'group':
        return ['grp', tree(v)]
    if not isinstance(v, dict):
        return BAD
    if k == 'function' and set(v) <= {'name', 'args'} and isinstance(v.get('name'), str) and isinstance(v.get('args', []), list):
        return ['call', cps(v['name']), [tree(a) for a in v.get('args', [])]]
    if k == 'binary' and set(v) == {'op', 'left', 'right'}:
        return ['bin', v['op'], tree(v['left']), tree(v['right'])]
    if k == 'unary' and set(v) == {'op', 'expr'}:
        return ['un', v['op'], tree(v['expr'])]
    return BAD


def items(stmts, out=None):
    """The statements of a model in order, functions in line"""
    out = [] if out is None else out
    if not isinstance(stmts, list):
        out.append(BAD)
        return out
    for s in stmts:
        if not isinstance(s, dict) or len(s) != 1:
            out.append(BAD)
            continue
        (k, v), = s.items()
        try:
            if k == 'expr':
                out.append(['expr', cps(v.get('name', '')), tree(v['expr'])])
            elif k == 'jump':
                out.append(['jumpif', cps(v['label']), tree(v['expr'])] if 'expr' in v else ['jump', cps(v['label'])])
            elif k == 'return':
                out.append(['returne', tree(v['expr'])] if 'expr' in v else ['return'])
            elif k == 'label':
                out.append(['label', cps(v)])
            elif k == 'include':
                out.extend(['include', bool(i.get('system', False)), cps(i['url'])] for i in v['includes'])
            elif k == 'function':
                out.append(['function', cps(v['name']), [cps(a) for a in v.get('args', [])], bool(v.get('lastArgArray', False)),
                            bool(v.get('async', False))])
                items(v['statements'], out)
                out.append(['endfunction'])
            else:
                out.append(BAD)
        except (KeyError, TypeError, AttributeError):
            out.append(BAD)
    return out


# ---- expression texts -----------------------------------------------------------------------

NAMES = ['a', 'b', 'x1', '_t', 'fooBar', 'if', 'true', 'null', 'e', 'e5', 'in', 'Z9_', 'return', 'f']
STRINGS = ['', 'x', "it's", 'say "hi"', 'back\\slash', 'a\\', '\\', "\\'", 'tab\tx', '(', ')', ' + ', '# no', 'é', '\U0001f600', ', ', ']', '\\"', 'a\nb', '\\\\', "'", '"', '[x]']
BRACKETS = ['a b', 'x]y', 'back\\slash', 'é', '+', '(', 'a.b', "q'q", 'a\\', '1', 'x  y', '\\]', '\\', '"', '[', ',']
NUMBERS = ['0', '1', '5', '10', '007', '1.5', '5.', '0.125', '12345678901234567890', '1e+3', '1e-3', '2.5e+10', '0.1', '9007199254740993', '1.e-5', '123456.789',
           '4.9e-324', '1.7976931348623157e+308', '0.30000000000000004', '1e+22', '1e-7']


def quoted(s, q):
    return q + s.replace('\\', '\\\\').replace(q, '\\' + q) + q


class ExprText:
    """Random expression trees and their text"""

    def __init__(self, rng):
        self.rng = rng

    def space(self, need=False):
        r = self.rng.random()
        if r < 0.55:
            return ' '
        if r < 0.9:
            return ' ' if need else ''
        return self.rng.choice(['  ', '\t', ' \t ', '   '])

    def atom(self):
        """(tokens, tree) of an operand without operators"""
        rng = self.rng
        r = rng.random()
        if r < 0.4:
            n = rng.choice(NAMES)
            return [n], ['var', cps(n)]
        if r < 0.65:
            t = rng.choice(NUMBERS)
            v = float(t)
            if rng.random() < 0.05:
                t = '+' + t
            return [t], ['num', enc_num(v)]
        if r < 0.88:
            s = rng.choice(STRINGS)
            return [quoted(s, rng.choice('\'"'))], ['str', cps(s)]
        s = rng.choice(BRACKETS)
        return ['[' + rng.choice(['', '', ' ']) + s.replace('\\', '\\\\').replace(']', '\\]') + ']'], ['var', cps(s)]

    def operand(self, depth):
        rng = self.rng
        r = rng.random()
        if depth <= 0 or r < 0.5:
            return self.atom()
        if r < 0.65:
            toks, t = self.expr(depth - 1)
            return ['('] + toks + [')'], ['grp', t]
        if r < 0.8:
            op = rng.choice('!-')
            toks, t = self.operand(depth - 1)
            return [op] + toks, ['un', op, t]
        n = rng.choice(NAMES)
        toks = [n, '(']
        args = []
        for i in range(rng.choice([0, 1, 1, 2, 3])):
            if i:
                toks.append(',')
            a, t = self.expr(depth - 1)
            toks += a
            args.append(t)
        return toks + [')'], ['call', cps(n), args]

    def expr(self, depth, nops=None):
        """a chain of operands; its tree by the levels of the operators (lowest level, last operator at the root)"""
        from .gen import PREC
        n = nops if nops is not None else self.rng.choice([0, 0, 1, 1, 2, 3, 4])
        parts = [self.operand(depth) for _ in range(n + 1)]
        ops = [self.rng.choice(OPS) for _ in range(n)]
        toks = list(parts[0][0])
        for op, (t, _) in zip(ops, parts[1:]):
            toks += [op] + t

        def build(lo, hi):
            if lo == hi:
                return parts[lo][1]
            k = min(range(lo, hi), key=lambda i: (PREC[ops[i]], -i))
            return ['bin', ops[k], build(lo, k), build(k + 1, hi)]
        return toks, build(0, n)

    def join(self, toks):
        """the text of tokens, with any spaces"""
        out = ''
        for t in toks:
            sep = self.space()
            # tokens that would grow together
            if sep == '' and out and (glue(out[-1], t[0])):
                sep = ' '
            out += sep + t if out else self.rng.choice(['', '', '', ' ', '\t']) + t
        return out + self.rng.choice(['', '', '', ' '])


def glue(a, b):
    word = lambda c: c.isalnum() or c == '_' or c == '.'   # noqa
    return (word(a) and word(b)) or (a in '*<>=!&|' and b in '*=&|') or (a == 'e' and b in '+-') or (a.isdigit() and b in '+-e')


EDIT_CHARS = list("()+-*/%<>=!&|,'\"[]\\ ab1.e#:;") + ['**', '&&', '||', '==', ' = ', ', ', '()', '\t', ' and ', 'é', '@', '{', '}', '\x0b', '\xa0', '1e5', '.5', '0x1', '1_0', '$a']


def mutate(rng, text, n=None):
    """text with a few characters or tokens removed, doubled, inserted, replaced, swapped or cut off"""
    t = text
    for _ in range(n or rng.choice([1, 1, 1, 2, 3])):
        i = rng.randrange(len(t) + 1)
        r = rng.random()
        if r < 0.3 and t:
            t = t[:i] + t[i + 1:]
        elif r < 0.6:
            t = t[:i] + rng.choice(EDIT_CHARS) + t[i:]
        elif r < 0.75 and i < len(t):
            t = t[:i] + rng.choice(EDIT_CHARS) + t[i + 1:]
        elif r < 0.85 and i < len(t):
            j = min(len(t), i + rng.choice([1, 2, 4]))
            t = t[:j] + t[i:]
        elif r < 0.93:
            t = t[:i]
        else:
            j = rng.randrange(len(t) + 1)
            i, j = min(i, j), max(i, j)
            t = t[:i] + t[j:]
    return t


def token_edits(toks, pool):
    """every edit of one token: removed, doubled, swapped with the next, replaced, another one put in"""
    for i in range(len(toks) + 1):
        for t in pool:
            yield toks[:i] + [t] + toks[i:]
        if i < len(toks):
            yield toks[:i] + toks[i + 1:]
            yield toks[:i] + [toks[i]] + toks[i:]
            yield toks[:i]
            for t in pool:
                if t != toks[i]:
                    yield toks[:i] + [t] + toks[i + 1:]
        if i + 1 < len(toks):
            yield toks[:i] + [toks[i + 1], toks[i]] + toks[i + 2:]


# ---- script texts ---------------------------------------------------------------------------

BLOCK_LINES = ['if a:', 'elif b:', 'else:', 'endif', 'while a:', 'endwhile', 'for v in a:', 'endfor', 'function f(a):', 'endfunction', 'break', 'continue', 'x = 1']
SPECIAL_LINES = [
    'jump lab', 'jumpif (a > 1) lab', 'lab:', 'jumpif(a)lab', 'jumpif ((a)) lab', 'return', 'return a + 1', 'return (a)', 'return(a)', "include 'u.bare'", 'include <s.bare>',
    "include 'it\\'s'", 'include "u"', 'include u', "include ''", 'include <>', "include 'a' 'b'", 'include <a>b>', 'function g():', 'function g(a, b):', 'function g(a , b...):',
    'function g(a b):', 'function g(a,):', 'function g(1):', 'function g(...):', 'async function g(a):', 'function g(a...) :', 'function (a):', 'function g(a)', 'function g:', 'asyncx = 1',
    'functionx(a)', 'endfunction x', 'endif:', 'endif x', 'if a', 'if:', 'if :', 'if  :', 'if(a):', 'if (a):', 'if a::', 'if a:b:', 'else', 'else :', 'else x:', 'elif a', 'elif:', 'elif(a):',
    'while:', 'while a', 'while true :', 'whilex a:', 'for x in a', 'for x in :', 'for x, i in a:', 'for x , i  in a:', 'for x,in a:', 'for x i in a:', 'for 1 in a:', 'for x in y in z:',
    'for x in(a):', 'for x:', 'for', 'for:', 'break:', 'break a', 'break = 1', 'continue x', 'continue()', 'a = 1', 'a = ', 'a =', 'a == 1', 'a == ', '= 1', 'a = = 1', 'a = b = c', '1 = 2', '[a b] = 1',
    'a b', 'a', '1', "'s'", 'f()', 'f(a)(b)', 'a # no comment', 'jump', 'jump 1', 'jump a b', 'jumpif a lab', 'jumpif (a)', 'jumpif () lab', 'jumpif (a) 1', 'jumpif (a) lab x', 'lab :', 'lab: x', 'la b:', '1:',
    ':', '()', '.', '\\x', 'x \\ y', 'é', 'é:', 'aé = 1', "x = 'é'", 'if = 1', 'if == 1', 'in:', 'jumpif:', 'jumpif (', 'return ', 'return)', 'return 1 2', 'include', 'include = 1', 'include:', "  include   'x'  ",
    "include 'x' # c", 'function f(a): # c', 'if a: # c', '\t\tx = 1\t', '\x0bx', 'x\xa0=\xa01', "'unclosed", 'x = "open', '[', '[a', '[]', ']', '(', 'x = (1', 'x = f(1', 'x = f(1,', 'x = !', 'x = 1 +', 'x = -',
    'endwhile', 'endfor', 'elif true:', 'x = 1 +\t', 'if (a:', 'while (a:', 'elif f(:', 'for q in ]:', 'return ]', 'jumpif (]) lab', 'a ===', 'x = a ? b', 'x = a.b', 'x = {}', '@', 'if a b:', '"s":', 'x == "a":']


def retokenise(line, rng, keep=0.4):
    """the same line with other spaces between its tokens"""
    import re
    toks = re.findall(r"'(?:\\.|[^'\\])*'|\"(?:\\.|[^\"\\])*\"|\[(?:\\.|[^\]\\])*\]|[A-Za-z_]\w*|\d+(?:\.\d*)?(?:e[+-]\d+)?|\.\.\.|\*\*|<=|>=|==|!=|&&|\|\||\S", line)
    if not toks or ''.join(toks) != re.sub(r'\s+', '', line) and not any(t[0] in '\'"[' for t in toks):
        return line
    if toks[0] == 'include':
        return line
    out = toks[0]
    g = ExprText(rng)
    for a, b in zip(toks, toks[1:]):
        need = a in KEYWORDS or b == 'in' or glue(a[-1], b[0])
        if rng.random() < keep:
            out += (' ' if need else rng.choice(['', ' '])) + b
            continue
        sep = g.space(need)
        out += (sep or (' ' if need else '')) + b
    return out


KEYWORDS = {'if', 'elif', 'while', 'for', 'in', 'return', 'jump', 'function', 'async', 'include', 'jumpif'}


def script_lines(rng, size=20):
    """the lines of a random valid script"""
    from . import gen
    g = gen.ProgGen(rng, max_depth=3, size=size, features=('blockfunc',))
    lines = gen.render(g.program())
    # jumps, labels, includes, other statements between the lines
    for _ in range(rng.choice([0, 1, 2, 4])):
        i = rng.randrange(len(lines) + 1)
        lines[i:i] = rng.choice([['lab1:'], ['jump lab1'], ['jumpif (a > 1) lab2', 'lab2:'], ["include 'u.bare'"], ['include <s.bare>', "include 'v.bare'"], ['return'], ["x = 'a # b'"],
                                 ['x = [a b] + "c\\\\"'], ['if (a) :', 'elif  !b:', 'else :', 'endif'], ['for v, i in f(a, "x:"):', 'continue', 'endfor'], ['while a : ', 'break', 'endwhile']])
    # no functions inside of functions
    return lines


def layout(rng, lines, level=1.0):
    """physical lines that read as the given logical lines"""
    import re
    out = []

    def filler():
        while rng.random() < 0.12 * level:
            out.append(rng.choice(['', '   ', '# note', '  # note \\', '\t', '#', '# endif', "# 'x", '\x0c']))
    for line in lines:
        filler()
        text = line
        if rng.random() < 0.5 * level:
            text = retokenise(line, rng)
        if rng.random() < 0.5 * level:
            text = rng.choice(['', ' ', '\t', '      ']) + text.strip() + rng.choice(['', '', ' ', '\t ', '   '])
        if rng.random() < 0.3 * level:
            # break it where there is a space outside of quotes
            spots = []
            q = None
            k = 0
            s = text.strip()
            while k < len(s):
                c = s[k]
                if q:
                    if c == '\\':
                        k += 1
                    elif c == q:
                        q = None
                elif c in '\'"[':
                    q = ']' if c == '[' else c
                elif c == ' ' and k > 0:
                    spots.append(k)
                elif c in '(),+*/%<>' and k + 1 < len(s) and s[k + 1] not in '=*.+' and not (c in '<>' and s[k - 1:k] == ' ') and not re.match(r'\s*include', s):
                    if c not in '*<>' or s[k - 1] != '*':
                        spots.append(k + 1)
                k += 1
            spots = [x for x in spots if 0 < x < len(s)]
            if spots and q is None:
                cut = sorted(set(rng.sample(spots, min(len(spots), rng.choice([1, 1, 2, 3])))))
                parts = [s[a:b] for a, b in zip([0] + cut, cut + [len(s)])]
                for p in parts[:-1]:
                    out.append(rng.choice(['', '  ', '\t']) + p + rng.choice(['\\', ' \\', ' \\ ', '\\\t', '  \\']))
                    filler()
                    if rng.random() < 0.1:
                        out.append(rng.choice(['\\', '  \\ ']))
                out.append(rng.choice(['', '    ']) + parts[-1] + rng.choice(['', ' ']))
                continue
        out.append(text)
    filler()
    return out


def chunk(rng, lines, ends=None):
    """text in pieces split at line boundaries; returns a list of texts"""
    ends = ends or rng.choice(['\n', '\n', '\r\n', 'mix'])
    end = lambda: rng.choice(['\n', '\r\n']) if ends == 'mix' else ends   # noqa
    parts = []
    i = 0
    while i < len(lines):
        n = rng.choice([1, 1, 2, 3, 5, 100])
        part = lines[i:i + n]
        parts.append(''.join(x + (end() if k < len(part) - 1 else '') for k, x in enumerate(part)))
        i += n
    return parts or ['']


def whole(rng, lines, ends=None):
    ends = ends or rng.choice(['\n', '\n', '\r\n', 'mix'])
    return ''.join(x + (rng.choice(['\n', '\r\n']) if ends == 'mix' else ends) for x in lines[:-1]) + (lines[-1] if lines else '')
