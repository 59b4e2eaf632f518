"""Encoding of BareScript values, models and observations for the specification (JSON read by TLC)."""
import datetime
import math
import re

REGEX_TYPE = type(re.compile(''))


def cps(text):
    return [ord(c) for c in text]


def text_of(codes):
    return ''.join(chr(c) for c in codes)


def enc_num(x):
    if isinstance(x, float):
        if math.isnan(x):
            return ['nan']
        if math.isinf(x):
            return ['inf', 1 if x < 0 else 0]
        if x == 0:
            return ['nz'] if math.copysign(1, x) < 0 else ['n', 0]
        if x != int(x):
            n, d = abs(x).as_integer_ratio()
            return _big(1 if x < 0 else 0, n, 1 - d.bit_length())
        x = int(x)
    if abs(x) < 1 << 30:
        return ['n', x]
    return _big(1 if x < 0 else 0, abs(x), 0)


def _big(s, n, e):
    t = (n & -n).bit_length() - 1
    n >>= t
    e += t
    limbs = []
    while n:
        limbs.append(n & 8191)
        n >>= 13
    return ['f', s, limbs, e]


def dec_num(v):
    if v[0] == 'n':
        return float(v[1])
    if v[0] == 'nz':
        return -0.0
    if v[0] == 'inf':
        return -math.inf if v[1] else math.inf
    if v[0] == 'nan':
        return math.nan
    n = 0
    for limb in reversed(v[2]):
        n = (n << 13) | limb
    r = math.ldexp(n, v[3]) if n.bit_length() < 1000 else float(n) * 2.0 ** v[3]
    return -r if v[1] else r


class Enc:
    """Encode values sharing one heap (containers keep their identity)"""

    def __init__(self, funcs=None, loose=False):
        self.loose = loose
        self.heap = []
        self.ids = {}
        self.keep = []
        self.funcs = funcs or {}    # id(callable) -> encoding

    def val(self, v):
        if v is None or self.loose:
            return ['z']
        if isinstance(v, bool):
            return ['b', v]
        if isinstance(v, (int, float)):
            return enc_num(v)
        if isinstance(v, str):
            return ['s', cps(v)]
        if isinstance(v, datetime.date):
            return enc_dt(v)
        if isinstance(v, (list, dict)):
            kind = 'a' if isinstance(v, list) else 'o'
            if id(v) in self.ids:
                return [kind, self.ids[id(v)]]
            ref = len(self.heap) + 1
            self.ids[id(v)] = ref
            self.keep.append(v)
            cell = [kind, []]
            self.heap.append(cell)
            if kind == 'a':
                cell[1] = [self.val(x) for x in list(v)]
            else:
                cell[1] = [[cps(k) if isinstance(k, str) else [-9], self.val(x)] for k, x in list(v.items())]
            return [kind, ref]
        if callable(v):
            return self.funcs.get(id(v), ['fn', 0])
        if isinstance(v, REGEX_TYPE):
            return ['re', []]
        return ['uk']


def enc_dt(v):
    if isinstance(v, datetime.datetime):
        if v.tzinfo is not None:
            try:
                v = v.astimezone().replace(tzinfo=None)
            except (OverflowError, ValueError):
                return ['uk']
        us = ((v.hour * 60 + v.minute) * 60 + v.second) * 1000000 + v.microsecond
        return ['d', v.toordinal(), us // 1000, us % 1000]
    return ['d', v.toordinal(), 0, 0]


# ---- models -> specification programs ----------------------------------------------

def enc_expr(e):
    (k, v), = e.items()
    if k == 'number':
        return ['num', enc_num(v)]
    if k == 'string':
        return ['str', cps(v)]
    if k == 'variable':
        return ['var', v]
    if k == 'function':
        return ['call', v['name'], [enc_expr(a) for a in v.get('args', [])]]
    if k == 'binary':
        return ['bin', v['op'], enc_expr(v['left']), enc_expr(v['right'])]
    if k == 'unary':
        return ['un', v['op'], enc_expr(v['expr'])]
    return ['grp', enc_expr(v)]


class Prog:
    """Collects statement lists (codes) and functions"""

    def __init__(self):
        self.codes = []
        self.fns = []

    def code(self, stmts):
        self.codes.append(None)
        ix = len(self.codes)
        self.codes[ix - 1] = [self.stmt(s) for s in stmts]
        return ix

    def stmt(self, s):
        (k, v), = s.items()
        # structured statements
        if k == 'if':
            return ['if', [[enc_expr(c), self.code(b)] for c, b in v['branches']], self.code(v['else']) if v.get('else') is not None else 0]
        if k == 'while':
            return ['while', enc_expr(v['expr']), self.code(v['statements'])]
        if k == 'for':
            return ['for', v['value'], v.get('index', ''), enc_expr(v['expr']), self.code(v['statements'])]
        if k in ('break', 'continue'):
            return [k]
        if k == 'expr':
            return ['expr', v.get('name', ''), enc_expr(v['expr'])]
        if k == 'jump':
            return ['jumpif', v['label'], enc_expr(v['expr'])] if 'expr' in v else ['jump', v['label']]
        if k == 'return':
            return ['returne', enc_expr(v['expr'])] if 'expr' in v else ['return']
        if k == 'label':
            return ['label', v]
        if k == 'function':
            self.fns.append(None)
            ix = len(self.fns)
            self.fns[ix - 1] = {'name': v['name'], 'args': list(v.get('args', [])), 'last': bool(v.get('lastArgArray', False)),
                                'code': self.code(v['statements'])}
            return ['function', ix]
        return ['include', [[bool(i.get('system', False)), cps(i['url'])] for i in v['includes']]]


def model_names(stmts, out=None):
    """All names of a model"""
    out = set() if out is None else out

    def ex(e):
        (k, v), = e.items()
        if k == 'variable':
            out.add(v)
        elif k == 'function':
            out.add(v['name'])
            for a in v.get('args', []):
                ex(a)
        elif k == 'binary':
            ex(v['left'])
            ex(v['right'])
        elif k == 'unary':
            ex(v['expr'])
        elif k == 'group':
            ex(v)
        elif k == 'string':
            if re.match(r'^[A-Za-z_]\w*$', v):
                out.add(v)
    for s in stmts:
        (k, v), = s.items()
        if k == 'expr':
            if v.get('name'):
                out.add(v['name'])
            ex(v['expr'])
        elif k in ('jump', 'return') and 'expr' in v:
            ex(v['expr'])
        elif k == 'if':
            for c, b in v['branches']:
                ex(c)
                model_names(b, out)
            model_names(v.get('else') or [], out)
        elif k in ('while', 'for'):
            ex(v['expr'])
            out.update(n for n in (v.get('value'), v.get('index')) if n)
            model_names(v['statements'], out)
        elif k == 'function':
            out.add(v['name'])
            out.update(v.get('args', []))
            model_names(v['statements'], out)
    return out
