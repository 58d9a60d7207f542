"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang-18 -O0 emits.

Functions are split textually and parsed lazily.  Only what the verifier executes is
parsed in detail; anything it does not know raises IRError when (and only when) the
verifier reaches it."""
import re


class IRError(Exception):
    pass


TOK = re.compile(r'''\s*(?:
 (?P<name>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
|(?P<str>c?"(?:[^"])*")
|(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[KLMHR]?[0-9A-Fa-f]+)
|(?P<meta>![-a-zA-Z$._0-9]*)
|(?P<attr>\#\d+)
|(?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
|(?P<p>\.\.\.|[(){}\[\]<>,=*:|])
)''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise IRError('token: ' + s[i:i + 60])
        i = m.end()
        out.append((m.lastgroup, m.group(m.lastgroup)))
    return out


class Ts:
    """token stream"""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i][1]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if self.peek() != x:
            raise IRError('expected %s got %s in %s' % (x, self.peek(), ' '.join(a[1] for a in self.t)[:300]))
        self.i += 1


PTR = ('ptr',)
VOID = ('void',)


def parse_type(ts):
    x = ts.next()
    if x == 'ptr':
        t = PTR
        if ts.peek() == 'addrspace':
            ts.next(); ts.expect('('); ts.next(); ts.expect(')')
    elif x == 'void':
        t = VOID
    elif re.fullmatch(r'i\d+', x):
        t = ('i', int(x[1:]))
    elif x in ('float', 'double', 'x86_fp80', 'fp128', 'half', 'label', 'metadata', 'token', 'opaque'):
        t = (x,)
    elif x[0] == '%':
        t = ('named', x)
    elif x == '[':
        n = int(ts.next())
        ts.expect('x')
        e = parse_type(ts)
        ts.expect(']')
        t = ('arr', n, e)
    elif x == '{':
        t = ('struct', parse_tlist(ts, '}'), False)
    elif x == '<':
        if ts.peek() == '{':
            ts.next()
            t = ('struct', parse_tlist(ts, '}'), True)
            ts.expect('>')
        else:
            n = int(ts.next())
            ts.expect('x')
            e = parse_type(ts)
            ts.expect('>')
            t = ('vec', n, e)
    else:
        raise IRError('type ' + x)
    while ts.peek() == '(':  # function type
        ts.next()
        args = []
        while not ts.accept(')'):
            if ts.accept('...'):
                pass
            else:
                args.append(parse_type(ts))
            ts.accept(',')
        t = ('fn', t, tuple(args))
    return t


def parse_tlist(ts, end):
    r = []
    if ts.accept(end):
        return tuple(r)
    while True:
        r.append(parse_type(ts))
        if ts.accept(end):
            return tuple(r)
        ts.expect(',')


# attributes that may appear before an operand in argument lists
PATTR = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone',
         'writeonly', 'returned', 'immarg', 'nofree', 'nest', 'swiftself', 'allocptr', 'inrange', 'writable',
         'dead_on_unwind'}
PATTR_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'byref',
             'allocsize', 'range', 'captures', 'initializes'}


def skip_attrs(ts):
    info = {}
    while True:
        x = ts.peek()
        if x in PATTR:
            ts.next()
            info[x] = True
        elif x in PATTR_ARG:
            ts.next()
            if ts.peek() == '(':
                if x in ('sret', 'byval', 'elementtype', 'byref'):
                    ts.next()
                    info[x] = parse_type(ts)
                    ts.expect(')')
                else:
                    depth = 0
                    while True:
                        y = ts.next()
                        if y == '(':
                            depth += 1
                        elif y == ')':
                            depth -= 1
                            if depth == 0:
                                break
            elif x == 'align':
                ts.next()
        elif ts.kind() == 'attr':
            ts.next()
        elif ts.kind() == 'str' and not x.startswith('c'):
            ts.next()
            if ts.accept('='):
                ts.next()
        else:
            return info


CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'fptoui', 'fptosi', 'uitofp',
        'sitofp', 'fptrunc', 'fpext'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub',
       'fmul', 'fdiv', 'frem'}
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'volatile', 'tail', 'musttail', 'notail', 'fast', 'nnan', 'ninf', 'nsz',
         'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg', 'nuw', 'samesign'}
CC = {'fastcc', 'ccc', 'coldcc'}


def cbytes(x):
    if x[0] == 'c':
        x = x[1:]
    x = x[1:-1]
    out, i = [], 0
    while i < len(x):
        if x[i] == '\\':
            if x[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(x[i + 1:i + 3], 16))
                i += 3
        else:
            out += list(x[i].encode())
            i += 1
    return out


def parse_value(ts, ty):
    """operand without its type"""
    k = ts.kind()
    x = ts.next()
    if k == 'name':
        return ('local', x[1:].strip('"')) if x[0] == '%' else ('global', x[1:].strip('"'))
    if k == 'num':
        if ty[0] == 'i':
            return ('int', int(x) & ((1 << ty[1]) - 1))
        return ('float', x)
    if k == 'str':
        return ('cstr', cbytes(x))
    if x == 'true':
        return ('int', 1)
    if x == 'false':
        return ('int', 0)
    if x == 'null':
        return ('null',)
    if x in ('undef', 'poison'):
        return ('undef',)
    if x == 'none':
        return ('undef',)
    if x == 'zeroinitializer':
        return ('zero',)
    if x in ('[', '{', '<'):
        if x == '<' and ts.peek() == '{':
            ts.next()
            close = ['}', '>']
        else:
            close = [{'[': ']', '{': '}', '<': '>'}[x]]
        items = []
        if ts.peek() == close[0]:
            ts.next()
        else:
            while True:
                t = parse_type(ts)
                items.append((t, parse_value(ts, t)))
                if ts.accept(close[0]):
                    break
                ts.expect(',')
        for c in close[1:]:
            ts.expect(c)
        return ('agg', items)
    if x == 'getelementptr':
        while ts.peek() in FLAGS or ts.peek() == 'inrange':
            ts.next()
        ts.expect('(')
        st = parse_type(ts)
        ops = []
        while ts.accept(','):
            while ts.peek() == 'inrange':
                ts.next()
                if ts.peek() == '(':
                    while ts.next() != ')':
                        pass
            t = parse_type(ts)
            ops.append((t, parse_value(ts, t)))
        ts.expect(')')
        return ('cgep', st, ops)
    if x in CAST:
        ts.expect('(')
        t = parse_type(ts)
        v = parse_value(ts, t)
        ts.expect('to')
        t2 = parse_type(ts)
        ts.expect(')')
        return ('ccast', x, t, v, t2)
    if x in BIN:
        while ts.peek() in FLAGS:
            ts.next()
        ts.expect('(')
        t = parse_type(ts)
        a = parse_value(ts, t)
        ts.expect(',')
        t2 = parse_type(ts)
        b = parse_value(ts, t2)
        ts.expect(')')
        return ('cbin', x, t, a, b)
    raise IRError('value %s' % x)


def parse_tv(ts):
    t = parse_type(ts)
    skip_attrs(ts)
    return t, parse_value(ts, t)


class Instr:
    __slots__ = ('op', 'res', 'a', 'text')

    def __init__(self, op, res, a, text):
        self.op, self.res, self.a, self.text = op, res, a, text

    def __repr__(self):
        return self.text.strip()


def parse_call(ts, op):
    while ts.peek() in CC:
        ts.next()
    skip_attrs(ts)
    rt = parse_type(ts)
    if rt[0] == 'fn':
        rt = rt[1]
    skip_attrs(ts)
    if ts.peek() == 'asm':
        raise IRError('inline asm')
    callee = parse_value(ts, PTR)
    ts.expect('(')
    args = []
    if not ts.accept(')'):
        while True:
            t = parse_type(ts)
            if t == ('metadata',):
                depth = 0
                while not (depth == 0 and ts.peek() in (',', ')')):
                    y = ts.next()
                    depth += y in '([{'
                    depth -= y in ')]}'
                args.append((t, ('undef',), {}))
            else:
                info = skip_attrs(ts)
                args.append((t, parse_value(ts, t), info))
            if ts.accept(')'):
                break
            ts.expect(',')
    return rt, callee, args


def parse_instr(line):
    text = line
    # strip trailing metadata
    line = re.sub(r',\s*![a-zA-Z_.]+ ![0-9]+', '', line)
    ts = Ts(tokenize(line))
    res = None
    if ts.kind() == 'name' and ts.peek(1) == '=':
        res = ts.next()[1:].strip('"')
        ts.next()
    flags = set()
    while ts.peek() in FLAGS:
        flags.add(ts.next())
    op = ts.next()
    while ts.peek() in FLAGS:
        flags.add(ts.next())
    if op == 'alloca':
        t = parse_type(ts)
        n = None
        while ts.accept(','):
            if ts.peek() == 'align':
                break
            tt = parse_type(ts)
            n = (tt, parse_value(ts, tt))
        return Instr('alloca', res, (t, n), text)
    if op == 'load':
        if ts.accept('atomic'):
            pass
        if ts.peek() == 'volatile':
            ts.next()
        t = parse_type(ts)
        ts.expect(',')
        pt = parse_type(ts)
        return Instr('load', res, (t, parse_value(ts, pt)), text)
    if op == 'store':
        ts.accept('atomic')
        ts.accept('volatile')
        t = parse_type(ts)
        v = parse_value(ts, t)
        ts.expect(',')
        pt = parse_type(ts)
        return Instr('store', None, (t, v, parse_value(ts, pt)), text)
    if op == 'getelementptr':
        t = parse_type(ts)
        ops = []
        while ts.accept(','):
            ops.append(parse_tv(ts))
        return Instr('gep', res, (t, ops), text)
    if op in BIN:
        t = parse_type(ts)
        a = parse_value(ts, t)
        ts.expect(',')
        b = parse_value(ts, t)
        return Instr('bin', res, (op, t, a, b, flags), text)
    if op in CAST:
        t = parse_type(ts)
        v = parse_value(ts, t)
        ts.expect('to')
        return Instr('cast', res, (op, t, v, parse_type(ts)), text)
    if op in ('icmp', 'fcmp'):
        pred = ts.next()
        while pred in FLAGS:
            pred = ts.next()
        t = parse_type(ts)
        a = parse_value(ts, t)
        ts.expect(',')
        return Instr(op, res, (pred, t, a, parse_value(ts, t)), text)
    if op == 'br':
        if ts.peek() == 'label':
            ts.next()
            return Instr('jmp', None, (ts.next()[1:].strip('"'),), text)
        t = parse_type(ts)
        c = parse_value(ts, t)
        ts.expect(','); ts.expect('label')
        a = ts.next()[1:].strip('"')
        ts.expect(','); ts.expect('label')
        return Instr('br', None, (c, a, ts.next()[1:].strip('"')), text)
    if op == 'switch':
        t, v = parse_tv(ts)
        ts.expect(','); ts.expect('label')
        d = ts.next()[1:].strip('"')
        ts.expect('[')
        cases = []
        while not ts.accept(']'):
            tt, vv = parse_tv(ts)
            ts.expect(','); ts.expect('label')
            cases.append((vv[1], ts.next()[1:].strip('"')))
        return Instr('switch', None, (t, v, d, cases), text)
    if op == 'ret':
        t = parse_type(ts)
        if t == VOID:
            return Instr('ret', None, (VOID, None), text)
        return Instr('ret', None, (t, parse_value(ts, t)), text)
    if op == 'phi':
        t = parse_type(ts)
        inc = []
        while True:
            ts.expect('[')
            v = parse_value(ts, t)
            ts.expect(',')
            inc.append((v, ts.next()[1:].strip('"')))
            ts.expect(']')
            if not ts.accept(','):
                break
        return Instr('phi', res, (t, inc), text)
    if op == 'select':
        tc, c = parse_tv(ts)
        ts.expect(',')
        t, a = parse_tv(ts)
        ts.expect(',')
        _, b = parse_tv(ts)
        return Instr('select', res, (c, t, a, b), text)
    if op in ('tail', 'musttail', 'notail'):
        op = ts.next()
    if op == 'call':
        return Instr('call', res, parse_call(ts, op) + (None, None), text)
    if op == 'invoke':
        rt, callee, args = parse_call(ts, op)
        while ts.peek() != 'to':
            ts.next()
        ts.next()
        ts.expect('label')
        n = ts.next()[1:].strip('"')
        ts.expect('unwind'); ts.expect('label')
        return Instr('call', res, (rt, callee, args, n, ts.next()[1:].strip('"')), text)
    if op == 'unreachable':
        return Instr('unreachable', None, (), text)
    if op in ('landingpad', 'resume', 'fence', 'atomicrmw', 'cmpxchg', 'fneg'):
        return Instr(op, res, (), text)
    if op == 'extractvalue':
        t, v = parse_tv(ts)
        idx = []
        while ts.accept(','):
            idx.append(int(ts.next()))
        return Instr('extractvalue', res, (t, v, idx), text)
    if op == 'insertvalue':
        t, v = parse_tv(ts)
        ts.expect(',')
        t2, v2 = parse_tv(ts)
        idx = []
        while ts.accept(','):
            idx.append(int(ts.next()))
        return Instr('insertvalue', res, (t, v, t2, v2, idx), text)
    if op == 'freeze':
        t, v = parse_tv(ts)
        return Instr('freeze', res, (t, v), text)
    return Instr('unsupported', res, (op,), text)


class Function:
    def __init__(self, name, rt, params, lines, module):
        self.name, self.rt, self.params, self.lines, self.module = name, rt, params, lines, module
        self._blocks = None

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    def _parse(self):
        bl, cur, order = {}, None, []
        buf = None
        for raw in self.lines:
            line = raw.split(';')[0].rstrip() if '"' not in raw else re.sub(r';[^"]*$', '', raw).rstrip()
            if not line.strip():
                continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', line)
            if m:
                cur = m.group(1).strip('"')
                bl[cur] = []
                order.append(cur)
                continue
            if cur is None:
                cur = '0'
                bl[cur] = []
                order.append(cur)
            if buf is not None:
                buf += ' ' + line.strip()
                if ']' in line:
                    bl[cur].append(buf)
                    buf = None
                continue
            s = line.strip()
            if s.startswith('switch') and ']' not in s.split('[', 1)[-1]:
                buf = s
                continue
            if re.match(r'^(to label|catch |cleanup|filter )', s):
                bl[cur][-1] += ' ' + s
                continue
            bl[cur].append(s)
        self.order = order
        self._blocks = {b: [parse_instr(x) for x in ins] for b, ins in bl.items()}
        self._loops()

    def succs(self, b):
        if not self._blocks[b]:
            return []
        t = self._blocks[b][-1]
        if t.op == 'jmp':
            return [t.a[0]]
        if t.op == 'br':
            return [t.a[1], t.a[2]]
        if t.op == 'switch':
            return [t.a[2]] + [x[1] for x in t.a[3]]
        if t.op == 'call' and t.a[3]:
            return [t.a[3], t.a[4]]
        return []

    def _loops(self):
        """natural loops: header -> set of blocks"""
        blocks = self._blocks
        entry = self.order[0]
        preds = {b: [] for b in blocks}
        for b in blocks:
            for s in self.succs(b):
                preds[s].append(b)
        # reverse post order
        seen, rpo = set(), []
        st = [(entry, iter(self.succs(entry)))]
        seen.add(entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succs(s))))
                    break
            else:
                rpo.append(b)
                st.pop()
        rpo.reverse()
        idx = {b: i for i, b in enumerate(rpo)}
        dom = {b: set(rpo) for b in rpo}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [dom[p] for p in preds[b] if p in idx]
                nd = set.intersection(*ps) if ps else set()
                nd = nd | {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        self.loops = {}
        for b in rpo:
            for s in self.succs(b):
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work += [p for p in preds[x] if p in idx]
        self.loop_order = [b for b in rpo if b in self.loops]


class Module:
    def __init__(self):
        self.types, self.globals, self.funcs, self.aliases, self.decls = {}, {}, {}, {}, set()
        self._tcache = {}

    def add(self, path):
        text = open(path, encoding='utf-8', errors='replace').read()
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            L = lines[i]
            if L.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._define(L, lines[i + 1:j])
                i = j + 1
                continue
            if L.startswith('%'):
                m = re.match(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', L)
                if m:
                    old = self.types.get(m.group(1))
                    if old is None or old == 'opaque':
                        self.types[m.group(1)] = m.group(2)
                    elif old != m.group(2):
                        # name clash between units: keep first, the other unit has the same name for another type
                        self.types[m.group(1)] = old
            elif L.startswith('@'):
                self._global(L)
            elif L.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', L)
                if m:
                    self.decls.add(m.group(1).strip('"'))
            i += 1

    def _define(self, head, body):
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', head)
        name = m.group(1).strip('"')
        if name in self.funcs:
            return
        pre = head[:m.start()]
        rest = head[m.end() - 1:]
        self.funcs[name] = ('raw', pre, rest, body)

    def func(self, name):
        name = self.resolve(name)
        f = self.funcs.get(name)
        if f is None:
            return None
        if isinstance(f, tuple):
            _, pre, rest, body = f
            ts = Ts(tokenize(rest))
            ts.expect('(')
            params = []
            if not ts.accept(')'):
                while True:
                    if ts.accept('...'):
                        ts.expect(')')
                        break
                    t = parse_type(ts)
                    info = skip_attrs(ts)
                    nm = ts.next()[1:].strip('"')
                    params.append((t, nm, info))
                    if ts.accept(')'):
                        break
                    ts.expect(',')
            words = pre
            f = Function(name, None, params, body, self)
            self.funcs[name] = f
        return f

    def resolve(self, name):
        n = 0
        while name in self.aliases and n < 10:
            name = self.aliases[name]
            n += 1
        return name

    def _global(self, L):
        m = re.match(r'^@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', L)
        name, rest = m.group(1).strip('"'), m.group(2)
        ma = re.search(r'\balias\b.*?, ptr @("[^"]*"|[-a-zA-Z$._0-9]+)', rest)
        if re.match(r'^[\w\s().]*\balias\b', rest) and ma:
            self.aliases[name] = ma.group(1).strip('"')
            return
        mm = re.match(r'^(.*?)\b(global|constant)\s+(.*)$', rest)
        if not mm:
            return
        ext = re.search(r'\bexternal\b', mm.group(1)) is not None
        if name in self.globals and (ext or not self.globals[name][0]):
            return
        self.globals[name] = (ext, mm.group(2) == 'constant', mm.group(3))

    def global_info(self, name):
        """(external, constant, type, initializer or None)"""
        g = self.globals.get(name)
        if g is None:
            return None
        if len(g) == 3:
            ext, const, txt = g
            txt = re.sub(r', comdat.*$|, align \d+$|, section .*$', '', txt)
            ts = Ts(tokenize_init(txt))
            t = parse_type(ts)
            init = None
            if not ext:
                init = parse_value(ts, t)
            g = (ext, const, t, init)
            self.globals[name] = g
        return g

    def T(self, t):
        """resolve named type"""
        if t[0] == 'named':
            if t not in self._tcache:
                body = self.types[t[1]]
                if body == 'opaque':
                    raise IRError('opaque type ' + t[1])
                self._tcache[t] = parse_type(Ts(tokenize(body)))
            return self._tcache[t]
        return t

    def align(self, t):
        t = self.T(t)
        k = t[0]
        if k == 'i':
            b = 1
            while b * 8 < t[1]:
                b *= 2
            return min(b, 16)
        if k == 'ptr' or k == 'double':
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80' or k == 'fp128':
            return 16
        if k == 'arr':
            return self.align(t[2])
        if k == 'struct':
            return 1 if t[2] else max([self.align(x) for x in t[1]] + [1])
        if k == 'vec':
            return self.size(t)
        raise IRError('align %r' % (t,))

    def size(self, t):
        t = self.T(t)
        k = t[0]
        if k == 'i':
            b = 1
            while b * 8 < t[1]:
                b *= 2
            return b
        if k == 'ptr' or k == 'double':
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80' or k == 'fp128':
            return 16
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'struct':
            o, a = 0, 1
            for x in t[1]:
                if not t[2]:
                    al = self.align(x)
                    a = max(a, al)
                    o = (o + al - 1) // al * al
                o += self.size(x)
            return (o + a - 1) // a * a
        if k == 'vec':
            return t[1] * self.size(t[2])
        raise IRError('size %r' % (t,))

    def field_off(self, t, i):
        t = self.T(t)
        o = 0
        for j, x in enumerate(t[1]):
            if not t[2]:
                al = self.align(x)
                o = (o + al - 1) // al * al
            if j == i:
                return o
            o += self.size(x)
        raise IRError('field')


def tokenize_init(txt):
    """like tokenize, but C strings may hold escaped quotes as \\22"""
    return tokenize(txt)
