"""A small renderer for the subset of the Tera template language that the acados
code-generation templates use.

The sandbox has no `t_renderer` binary, so this stands in for it.  It is part of
the environment, not of the code under test: the templates themselves and the
JSON they are rendered with come from /repo.

Each template is compiled to a Python function.  Semantics follow Tera 1.x:
undefined identifiers are falsy in a boolean context and an error elsewhere,
filters bind looser than arithmetic and `~`, tighter than comparisons, `set`
inside a `for` body is local to the iteration, `set_global` is not, maps are
iterated in key order.
"""
import json
import math
import re
import sys


class TeraError(Exception):
    pass


class Undefined(TeraError):
    pass


# ------------------------------------------------------------------ lexing
_TAG = re.compile(r'\{([{%#])(-?)(.*?)(-?)([}%#])\}', re.S)

_TOK = re.compile(r'''\s*(?:
    (?P<num>\d+(?:\.\d+)?(?:[eE][-+]?\d+)?)
  | (?P<str>"[^"]*"|'[^']*'|`[^`]*`)
  | (?P<id>[A-Za-z_][A-Za-z0-9_]*)
  | (?P<op>==|!=|<=|>=|::|[-+*/%~|().,\[\]=<>])
)''', re.X)


def _lex_expr(s):
    out, pos = [], 0
    s = s.strip()
    while pos < len(s):
        m = _TOK.match(s, pos)
        if not m or m.end() == pos:
            raise TeraError('cannot lex %r at %r' % (s, s[pos:]))
        pos = m.end()
        if m.group('num') is not None:
            out.append(('num', m.group('num')))
        elif m.group('str') is not None:
            out.append(('str', m.group('str')[1:-1]))
        elif m.group('id') is not None:
            out.append(('id', m.group('id')))
        else:
            out.append(('op', m.group('op')))
    return out


def split_template(src):
    """-> list of (kind, payload); kind in text/var/block"""
    out = []
    pos = 0
    trim_next = False
    while True:
        # earliest opener
        m = re.compile(r'\{([{%#])(-?)').search(src, pos)
        if not m:
            t = src[pos:]
            if trim_next:
                t = t.lstrip()
            if t:
                out.append(('text', t))
            break
        t = src[pos:m.start()]
        if trim_next:
            t = t.lstrip()
        if m.group(2):
            t = t.rstrip()
        if t:
            out.append(('text', t))
        kind = m.group(1)
        close = {'{': '}}', '%': '%}', '#': '#}'}[kind]
        end = src.find(close, m.end())
        if end < 0:
            raise TeraError('unterminated tag at %r' % src[m.start():m.start() + 60])
        body = src[m.end():end]
        trim_next = False
        if body.endswith('-'):
            body = body[:-1]
            trim_next = True
        if kind == '{':
            out.append(('var', body.strip()))
        elif kind == '%':
            out.append(('block', body.strip()))
        else:
            out.append(('comment', ''))
        pos = end + 2
    return out


# ------------------------------------------------------------- expressions
class _P:
    def __init__(self, toks, src):
        self.t, self.i, self.src = toks, 0, src

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, kind, val=None):
        k, v = self.peek()
        if k == kind and (val is None or v == val):
            self.i += 1
            return True
        return False

    def expect(self, kind, val=None):
        k, v = self.next()
        if k != kind or (val is not None and v != val):
            raise TeraError('expected %s %s, got %s %s in %r' % (kind, val, k, v, self.src))
        return v

    # logic -------------------------------------------------------------
    def logic(self):
        l = self.logic_and()
        while self.accept('id', 'or'):
            r = self.logic_and()
            l = ('or', l, r)
        return l

    def logic_and(self):
        l = self.logic_not()
        while self.accept('id', 'and'):
            r = self.logic_not()
            l = ('and', l, r)
        return l

    def logic_not(self):
        if self.accept('id', 'not'):
            return ('not', self.logic_not())
        return self.comparison()

    def comparison(self):
        l = self.filtered()
        k, v = self.peek()
        if k == 'id' and v == 'is':
            self.next()
            neg = self.accept('id', 'not')
            name = self.expect('id')
            args = []
            if self.accept('op', '('):
                while not self.accept('op', ')'):
                    args.append(self.logic())
                    self.accept('op', ',')
            n = ('test', name, l, args)
            return ('not', n) if neg else n
        if k == 'id' and v == 'in':
            self.next()
            return ('in', l, self.filtered())
        if k == 'id' and v == 'not' and self.peek(1) == ('id', 'in'):
            self.next()
            self.next()
            return ('not', ('in', l, self.filtered()))
        if k == 'op' and v in ('==', '!=', '<', '>', '<=', '>='):
            self.next()
            return ('cmp', v, l, self.filtered())
        return l

    def filtered(self):
        e = self.arith()
        while self.accept('op', '|'):
            name = self.expect('id')
            kw = {}
            if self.accept('op', '('):
                while not self.accept('op', ')'):
                    key = self.expect('id')
                    self.expect('op', '=')
                    kw[key] = self.logic()
                    self.accept('op', ',')
            e = ('filter', name, e, kw)
        return e

    def arith(self):
        l = self.term()
        while True:
            k, v = self.peek()
            if k == 'op' and v in '+-~' and v:
                self.next()
                l = ('bin', v, l, self.term())
            else:
                return l

    def term(self):
        l = self.unary()
        while True:
            k, v = self.peek()
            if k == 'op' and v in ('*', '/', '%'):
                self.next()
                l = ('bin', v, l, self.unary())
            else:
                return l

    def unary(self):
        if self.accept('op', '-'):
            return ('neg', self.unary())
        return self.primary()

    def primary(self):
        k, v = self.next()
        if k == 'num':
            return ('lit', float(v) if re.search(r'[.eE]', v) else int(v))
        if k == 'str':
            return ('lit', v)
        if k == 'op' and v == '(':
            e = self.logic()
            self.expect('op', ')')
            return self.postfix(('paren', e))
        if k == 'op' and v == '[':
            items = []
            while not self.accept('op', ']'):
                items.append(self.logic())
                self.accept('op', ',')
            return ('list', items)
        if k == 'id':
            if v in ('true', 'True'):
                return ('lit', True)
            if v in ('false', 'False'):
                return ('lit', False)
            if self.peek() == ('op', '('):
                self.next()
                kw = {}
                while not self.accept('op', ')'):
                    key = self.expect('id')
                    self.expect('op', '=')
                    kw[key] = self.logic()
                    self.accept('op', ',')
                return ('call', v, kw)
            return self.postfix(('name', v))
        raise TeraError('unexpected %s %r in %r' % (k, v, self.src))

    def postfix(self, e):
        while True:
            if self.accept('op', '.'):
                k, v = self.next()
                if k == 'num':
                    for part in v.split('.'):
                        e = ('get', e, ('lit', int(part)))
                else:
                    e = ('get', e, ('lit', v))
            elif self.accept('op', '['):
                idx = self.logic()
                self.expect('op', ']')
                e = ('get', e, idx)
            else:
                return e


def parse_expr(s):
    p = _P(_lex_expr(s), s)
    e = p.logic()
    if p.i != len(p.t):
        raise TeraError('trailing tokens in %r' % s)
    return e


# ------------------------------------------------------------------ runtime
def _is_num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def _num(x, what):
    if not _is_num(x):
        raise TeraError('%s: expected a number, got %r' % (what, x))
    return x


def truthy(x):
    if x is None:
        return False
    if isinstance(x, bool):
        return x
    if _is_num(x):
        return x != 0 and not (isinstance(x, float) and math.isnan(x))
    return len(x) > 0


def render_value(x):
    if x is True:
        return 'true'
    if x is False:
        return 'false'
    if x is None:
        return ''
    if isinstance(x, str):
        return x
    if isinstance(x, float):
        if x == int(x) if math.isfinite(x) else False:
            if abs(x) < 1e16:
                return '%.1f' % x
        return repr(x)
    if isinstance(x, int):
        return str(x)
    if isinstance(x, list):
        return '[' + ', '.join(render_value(v) for v in x) + ']'
    if isinstance(x, dict):
        return '[object]'
    raise TeraError('cannot render %r' % (x,))


def _get(o, k):
    if isinstance(o, dict):
        if isinstance(k, str) and k in o:
            return o[k]
        raise Undefined('no key %r' % (k,))
    if isinstance(o, list):
        if isinstance(k, int) and not isinstance(k, bool) and 0 <= k < len(o):
            return o[k]
        raise Undefined('no index %r' % (k,))
    raise Undefined('cannot index %r with %r' % (type(o).__name__, k))


def _bin(op, a, b):
    if op == '~':
        for x in (a, b):
            if not (isinstance(x, str) or _is_num(x)):
                raise TeraError('~ on %r' % (x,))
        return render_value(a) + render_value(b)
    _num(a, op)
    _num(b, op)
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        return a / b
    if op == '%':
        return math.fmod(a, b) if isinstance(a, float) or isinstance(b, float) else int(math.fmod(a, b))
    raise TeraError(op)


def _cmp(op, a, b):
    if op in ('==', '!='):
        # numbers compare numerically; otherwise by type and value
        if _is_num(a) and _is_num(b):
            eq = a == b
        else:
            eq = type(a) is type(b) and a == b
        return eq if op == '==' else not eq
    _num(a, op)
    _num(b, op)
    return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]


def _in(a, b):
    if isinstance(b, str):
        if not isinstance(a, str):
            raise TeraError('in: %r' % (a,))
        return a in b
    if isinstance(b, dict):
        return a in b
    if isinstance(b, list):
        return any(_cmp('==', a, x) for x in b)
    raise TeraError('in on %r' % (b,))


def _test(name, getter, args):
    if name in ('defined', 'undefined'):
        try:
            getter()
            d = True
        except Undefined:
            d = False
        return d if name == 'defined' else not d
    v = getter()
    if name == 'containing':
        return _in(args[0], v)
    if name in ('starting_with', 'ending_with'):
        if not isinstance(v, str):
            raise TeraError('%s on %r' % (name, v))
        return v.startswith(args[0]) if name == 'starting_with' else v.endswith(args[0])
    if name == 'string':
        return isinstance(v, str)
    if name == 'number':
        return _is_num(v)
    if name == 'iterable':
        return isinstance(v, (list, dict))
    if name == 'object':
        return isinstance(v, dict)
    if name == 'odd':
        return v % 2 == 1
    if name == 'even':
        return v % 2 == 0
    if name == 'divisibleby':
        return v % args[0] == 0
    if name == 'matching':
        return re.search(args[0], v) is not None
    raise TeraError('unknown test ' + name)


def _s(v, name):
    if not isinstance(v, str):
        raise TeraError('filter %s on %r' % (name, v))
    return v


def _filter(name, getter, kw):
    if name == 'default':
        try:
            return getter()
        except Undefined:
            return kw['value']
    v = getter()
    if name == 'upper':
        return _s(v, name).upper()
    if name == 'lower':
        return _s(v, name).lower()
    if name == 'title':
        return re.sub(r"[^\s\-()]+", lambda m: m.group(0)[0].upper() + m.group(0)[1:].lower(), _s(v, name))
    if name == 'capitalize':
        return _s(v, name)[:1].upper() + v[1:].lower()
    if name == 'trim':
        return _s(v, name).strip(kw['chars']) if 'chars' in kw else _s(v, name).strip()
    if name == 'replace':
        return _s(v, name).replace(kw['from'], kw['to'])
    if name == 'split':
        return _s(v, name).split(kw['pat'])
    if name == 'first':
        return v[0] if v else ''
    if name == 'last':
        return v[-1] if v else ''
    if name == 'length':
        if not isinstance(v, (list, dict, str)):
            raise TeraError('length of %r' % (v,))
        return len(v)
    if name == 'sort':
        return sorted(v)
    if name == 'unique':
        out = []
        for x in v:
            if x not in out:
                out.append(x)
        return out
    if name == 'reverse':
        return v[::-1]
    if name == 'join':
        return kw.get('sep', '').join(render_value(x) for x in v)
    if name == 'concat':
        if not isinstance(v, list):
            raise TeraError('concat on %r' % (v,))
        w = kw['with']
        return v + (w if isinstance(w, list) else [w])
    if name == 'filter':
        out = []
        for x in v:
            cur = x
            try:
                for part in kw['attribute'].split('.'):
                    cur = _get(cur, part)
            except Undefined:
                cur = None
            if 'value' in kw:
                if _cmp('==', cur, kw['value']):
                    out.append(x)
            elif cur is not None:
                out.append(x)
        return out
    if name == 'map':
        return [_get(x, kw['attribute']) for x in v]
    if name == 'abs':
        return abs(v)
    if name == 'int':
        return int(v)
    if name == 'float':
        return float(v)
    if name == 'round':
        return float(round(v))
    if name == 'safe':
        return v
    raise TeraError('unknown filter ' + name)


class TeraThrow(TeraError):
    pass


def _call(name, kw):
    if name == 'range':
        start = kw.get('start', 0)
        end = kw['end']
        step = kw.get('step_by', 1)
        for x in (start, end, step):
            if not isinstance(x, int) or isinstance(x, bool) or x < 0:
                raise TeraError('range(%r)' % (kw,))
        if start > end:
            raise TeraError('range: start %d > end %d' % (start, end))
        return list(range(start, end, step))
    if name == 'throw':
        raise TeraThrow(kw.get('message', ''))
    if name == 'now':
        return '2026-01-01T00:00:00'
    raise TeraError('unknown function ' + name)


class Ctx:
    __slots__ = ('root', 'glob', 'frames')

    def __init__(self, root):
        self.root = root
        self.glob = {}
        self.frames = []

    def get(self, name):
        for f in reversed(self.frames):
            if name in f:
                return f[name]
        if name in self.glob:
            return self.glob[name]
        if name in self.root:
            return self.root[name]
        raise Undefined('variable %r not found' % name)

    def set(self, name, val):
        if self.frames:
            self.frames[-1][name] = val
        else:
            self.glob[name] = val

    def set_global(self, name, val):
        self.glob[name] = val


class Loop:
    pass


# ------------------------------------------------------------------ codegen
def gen(e):
    k = e[0]
    if k == 'lit':
        return repr(e[1])
    if k == 'name':
        return 'c.get(%r)' % e[1]
    if k == 'paren':
        return gen(e[1])
    if k == 'get':
        return '_get(%s, %s)' % (gen(e[1]), gen(e[2]))
    if k == 'list':
        return '[' + ', '.join(gen(x) for x in e[1]) + ']'
    if k == 'bin':
        return '_bin(%r, %s, %s)' % (e[1], gen(e[2]), gen(e[3]))
    if k == 'neg':
        return '(-%s)' % gen(e[1])
    if k == 'cmp':
        return '_cmp(%r, %s, %s)' % (e[1], gen(e[2]), gen(e[3]))
    if k == 'in':
        return '_in(%s, %s)' % (gen(e[1]), gen(e[2]))
    if k == 'test':
        return '_test(%r, lambda: %s, [%s])' % (e[1], gen(e[2]), ', '.join(gen(x) for x in e[3]))
    if k == 'filter':
        kw = ', '.join('%r: %s' % (a, gen(b)) for a, b in e[3].items())
        return '_filter(%r, lambda: %s, {%s})' % (e[1], gen(e[2]), kw)
    if k == 'call':
        kw = ', '.join('%r: %s' % (a, gen(b)) for a, b in e[2].items())
        return '_call(%r, {%s})' % (e[1], kw)
    if k == 'and':
        return '(%s and %s)' % (genb(e[1]), genb(e[2]))
    if k == 'or':
        return '(%s or %s)' % (genb(e[1]), genb(e[2]))
    if k == 'not':
        return '(not %s)' % genb(e[1])
    raise TeraError(k)


def genb(e):
    if e[0] in ('and', 'or', 'not', 'cmp', 'in', 'test'):
        return gen(e)
    if e[0] == 'paren':
        return genb(e[1])
    return '_truthy_safe(lambda: %s)' % gen(e)


def _truthy_safe(f):
    try:
        return truthy(f())
    except Undefined:
        return False


def compile_template(src, name='<template>'):
    parts = split_template(src)
    lines = ['def _render(c, w):']
    ind = 1
    stack = []

    def emit(s):
        lines.append('    ' * ind + s)

    for kind, body in parts:
        if kind == 'comment':
            continue
        if kind == 'text':
            emit('w(%r)' % body)
            continue
        if kind == 'var':
            e = parse_expr(body)
            if e[0] in ('and', 'or', 'not', 'cmp', 'in', 'test'):
                emit('w(render_value(bool(%s)))' % gen(e))
            else:
                emit('w(render_value(%s))' % gen(e))
            continue
        m = re.match(r'([a-z_]+)\s*(.*)$', body, re.S)
        kw, rest = m.group(1), m.group(2)
        if kw == 'if':
            emit('if %s:' % genb(parse_expr(rest)))
            ind += 1
            emit('pass')
            stack.append('if')
        elif kw == 'elif':
            ind -= 1
            emit('elif %s:' % genb(parse_expr(rest)))
            ind += 1
            emit('pass')
        elif kw == 'else':
            if stack[-1] == 'if':
                ind -= 1
                emit('else:')
                ind += 1
                emit('pass')
            else:
                raise TeraError('for-else unsupported')
        elif kw == 'endif':
            if stack.pop() != 'if':
                raise TeraError('endif mismatch')
            ind -= 1
        elif kw == 'for':
            m = re.match(r'([A-Za-z_]\w*)\s*(?:,\s*([A-Za-z_]\w*))?\s+in\s+(.*)$', rest, re.S)
            if not m:
                raise TeraError('for: %r' % rest)
            a, b, ex = m.groups()
            emit('for _fr in _iter(%s, %r, %r):' % (gen(parse_expr(ex)), a, b))
            ind += 1
            emit('c.frames.append(_fr)')
            emit('_depth = len(c.frames)')
            emit('try:')
            ind += 1
            emit('pass')
            stack.append('for')
        elif kw == 'endfor':
            if stack.pop() != 'for':
                raise TeraError('endfor mismatch')
            ind -= 1
            emit('finally:')
            emit('    c.frames.pop()')
            ind -= 1
        elif kw == 'break':
            emit('break')
        elif kw == 'continue':
            emit('continue')
        elif kw in ('set', 'set_global'):
            m = re.match(r'([A-Za-z_]\w*)\s*=\s*(.*)$', rest, re.S)
            if not m:
                raise TeraError('%s: %r' % (kw, rest))
            e = parse_expr(m.group(2))
            emit('c.%s(%r, %s)' % (kw, m.group(1), gen(e)))
        else:
            raise TeraError('unknown block %r' % body)
    if stack:
        raise TeraError('unclosed blocks %r in %s' % (stack, name))
    code = '\n'.join(lines)
    ns = dict(_get=_get, _bin=_bin, _cmp=_cmp, _in=_in, _test=_test, _filter=_filter,
              _call=_call, _truthy_safe=_truthy_safe, render_value=render_value, _iter=_iter)
    exec(compile(code, name, 'exec'), ns)
    return ns['_render']


def _iter(v, a, b):
    if isinstance(v, dict):
        if b is None:
            raise TeraError('iterating a map needs key, value')
        items = sorted(v.items())
    elif isinstance(v, (list, str)):
        if b is not None:
            raise TeraError('key, value loop over a list')
        items = list(v)
    else:
        raise TeraError('cannot iterate %r' % (v,))
    n = len(items)
    for i, it in enumerate(items):
        fr = {'loop': {'index': i + 1, 'index0': i, 'first': i == 0, 'last': i == n - 1}}
        if b is None:
            fr[a] = it
        else:
            fr[a], fr[b] = it
        yield fr


_cache = {}


def render_string(src, context, name='<template>'):
    fn = _cache.get(src)
    if fn is None:
        fn = _cache[src] = compile_template(src, name)
    out = []
    fn(Ctx(context), out.append)
    return ''.join(out)


def precompile(root):
    """compile all templates once, so that forked cases need not"""
    import os
    for d, _, fs in os.walk(root):
        for f in fs:
            if '.in.' in f or f.endswith('.in'):
                try:
                    with open(os.path.join(d, f)) as h:
                        src = h.read()
                    if src not in _cache:
                        _cache[src] = compile_template(src, f)
                except (TeraError, OSError, ValueError, SyntaxError):
                    pass        # reported by the case that renders it


def _no_const(x):
    raise TeraError('JSON constant %s is not valid JSON' % x)


def load_json(path):
    with open(path) as f:
        return json.load(f, parse_constant=_no_const)


def render_file(template_glob, in_file, json_path, out_file):
    """Same contract as `t_renderer GLOB TEMPLATE JSON OUT`."""
    import os
    root = template_glob.split('*')[0]
    path = os.path.join(root, in_file)
    with open(path) as f:
        src = f.read()
    out = render_string(src, load_json(json_path), path)
    with open(out_file, 'w') as f:
        f.write(out)


if __name__ == '__main__':
    if len(sys.argv) == 2 and sys.argv[1] in ('--version', '-V'):
        print('t_renderer 99.0.0')
        sys.exit(0)
    try:
        render_file(*sys.argv[1:5])
    except TeraError as e:
        sys.stderr.write('Error: %s\n' % e)
        sys.exit(1)
