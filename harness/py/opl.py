"""A small interpreter of OPL models: parse a .mod, evaluate it on data, and get the linear program it stands for.
Only what such a model needs: int/float/range/dvar/dexpr declarations, minimize/maximize, forall, sum, if, comparisons."""
import re


class Unsupported(Exception):
    pass


TOK = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|(?P<num>\d+\.\d+(?:[eE][-+]?\d+)?|\d+(?:[eE][-+]?\d+)?)|(?P<id>[A-Za-z_]\w*)|(?P<op>\.\.\.|\.\.|==|<=|>=|!=|&&|\|\||=>|[-+*/%(){}\[\]:;,<>=!?])|(?P<str>"[^"]*")', re.S)


def tokens(text):
    out, p = [], 0
    while p < len(text):
        m = TOK.match(text, p)
        if not m:
            raise Unsupported('character %r' % text[p])
        if m.lastgroup:
            v = m.group()
            out.append((m.lastgroup, v, m.start(), m.end()))
        p = m.end()
    return out


class Lin(dict):
    """Linear form: variable -> coefficient; None -> constant."""


def const(v):
    return not isinstance(v, Lin)


def add(a, b, s=1):
    if const(a) and const(b):
        return a + s * b
    r = Lin(a if not const(a) else {None: a})
    for k, v in (b.items() if not const(b) else [(None, b)]):
        r[k] = r.get(k, 0) + s * v
    return r


def mul(a, b):
    if const(a) and const(b):
        return a * b
    if not const(a) and not const(b):
        raise Unsupported('product of variables')
    if const(a):
        a, b = b, a
    return Lin({k: v * b for k, v in a.items()})


class Parser:
    """Turns the text into closures env -> value."""

    def __init__(self, text):
        # the blocks of script are not OPL
        self.text, self.script = text, []
        self.t, self.p = tokens(self.cut(text)), 0
        self.decl, self.obj, self.cons = [], None, []

    def cut(self, text):
        while True:
            m = re.search(r'\bexecute\b\s*\w*\s*\{', text)
            if not m:
                return text
            k, depth = m.end(), 1
            while depth:
                depth += {'{': 1, '}': -1}.get(text[k], 0)
                k += 1
            self.script.append(text[m.end():k - 1])
            text = text[:m.start()] + text[k:]

    # -- tokens
    def peek(self, k=0):
        return self.t[self.p + k][1] if self.p + k < len(self.t) else None

    def eat(self, v):
        if self.peek() == v:
            self.p += 1
            return True
        return False

    def want(self, v):
        if not self.eat(v):
            raise Unsupported('%r instead of %r' % (self.peek(), v))

    def ident(self):
        if self.p >= len(self.t) or self.t[self.p][0] != 'id':
            raise Unsupported('%r instead of a name' % self.peek())
        self.p += 1
        return self.t[self.p - 1][1]

    # -- expressions, loosest first
    def expr(self):
        c = self.disj()
        if self.eat('?'):
            a = self.expr()
            self.want(':')
            b = self.expr()
            return lambda e: a(e) if c(e) else b(e)
        return c

    def disj(self):
        a = self.conj()
        while self.eat('||'):
            a = (lambda x, y: lambda e: x(e) or y(e))(a, self.conj())
        return a

    def conj(self):
        a = self.comp()
        while self.eat('&&'):
            a = (lambda x, y: lambda e: x(e) and y(e))(a, self.comp())
        return a

    def comp(self):
        a, parts = self.arith(), []
        while self.peek() in ('==', '<=', '>=', '!=', '<', '>'):
            op = self.peek()
            self.p += 1
            parts.append((op, self.arith()))
        if not parts:
            return a

        def f(e):
            x, out = a(e), []
            for op, b in parts:
                y = b(e)
                if const(x) and const(y):
                    out.append({'==': x == y, '<=': x <= y, '>=': x >= y, '!=': x != y, '<': x < y, '>': x > y}[op])
                else:
                    out.append(('con', op, add(x, y, -1)))
                x = y
            if all(isinstance(v, bool) for v in out):
                return all(out)
            return [v for v in out]
        return f

    def arith(self):
        a = self.term()
        while self.peek() in ('+', '-'):
            s = 1 if self.peek() == '+' else -1
            self.p += 1
            a = (lambda x, y, s: lambda e: add(x(e), y(e), s))(a, self.term(), s)
        return a

    def term(self):
        a = self.unary()
        while self.peek() in ('*', '/', '%') or self.peek() in ('mod', 'div'):
            op = self.peek()
            self.p += 1
            b = self.unary()
            if op == '*':
                a = (lambda x, y: lambda e: mul(x(e), y(e)))(a, b)
            elif op == '/':
                a = (lambda x, y: lambda e: mul(x(e), 1 / y(e)))(a, b)
            elif op == 'div':
                a = (lambda x, y: lambda e: int(x(e) / y(e)))(a, b)
            else:
                a = (lambda x, y: lambda e: x(e) - y(e) * int(x(e) / y(e)))(a, b)
        return a

    def unary(self):
        if self.eat('-'):
            a = self.unary()
            return lambda e: mul(-1, a(e))
        if self.eat('+'):
            return self.unary()
        if self.eat('!'):
            a = self.unary()
            return lambda e: not a(e)
        if self.peek() in ('sum', 'max', 'min', 'maxl', 'minl', 'abs', 'ftoi', 'card'):
            w = self.ident()
            if w == 'sum':
                it = self.quant()
                body = self.term()

                def f(e):
                    r = 0
                    for x in it(e):
                        r = add(r, body(x))
                    return r
                return f
            if w in ('max', 'min') and self.isquant():
                it = self.quant()
                body = self.term()
                g = max if w == 'max' else min
                return lambda e: g(body(x) for x in it(e))
            self.want('(')
            a = [self.expr()]
            while self.eat(','):
                a.append(self.expr())
            self.want(')')
            g = {'maxl': max, 'minl': min, 'max': max, 'min': min, 'abs': abs, 'ftoi': int, 'card': len}[w]
            return lambda e: g(*[x(e) for x in a])
        return self.atom()

    def isquant(self):
        return self.peek() == '(' and self.peek(2) in ('in', ',')

    def atom(self):
        if self.eat('('):
            a = self.expr()
            self.want(')')
            return a
        k, v = self.t[self.p][:2] if self.p < len(self.t) else (None, None)
        if k == 'num':
            self.p += 1
            n = float(v) if re.search('[.eE]', v) else int(v)
            return lambda e: n
        if k == 'id':
            name = self.ident()
            idx = []
            while self.eat('['):
                idx.append(self.expr())
                while self.eat(','):
                    idx.append(self.expr())
                self.want(']')

            def f(e):
                if name not in e:
                    raise Unsupported('name %s' % name)
                r = e[name]
                for i in idx:
                    r = r[i(e)]
                return r(e) if callable(r) else r
            return f
        raise Unsupported('expression at %r' % v)

    def rng(self):
        """A range or a name of one -> env -> list."""
        p = self.p
        a = self.arith()
        if self.eat('..'):
            b = self.arith()
            return lambda e: list(range(a(e), b(e) + 1))
        self.p = p
        n = self.ident()
        return lambda e: e[n]

    def quant(self):
        """( i in R, j in S : cond ) -> env -> environments"""
        self.want('(')
        its, conds = [], []
        while True:
            ns = [self.ident()]
            while self.eat(','):
                ns.append(self.ident())
            self.want('in')
            r = self.rng()
            for n in ns:
                its.append((n, r))
            if self.eat(':'):
                conds.append((len(its), self.expr()))
            if not self.eat(','):
                break
        self.want(')')

        def go(e, k=0):
            for m, c in conds:
                if m == k and not c(e):
                    return
            if k == len(its):
                yield e
                return
            n, r = its[k]
            for v in r(e):
                yield from go(dict(e, **{n: v}), k + 1)
        return lambda e: go(e) if not conds or conds[0][0] else go(e)

    # -- constraints: env -> list of ('con', op, lin) or booleans
    def constraint(self):
        if self.peek() == 'forall':
            self.p += 1
            it = self.quant()
            body = self.constraint()
            return lambda e: [c for x in it(e) for c in body(x)]
        if self.eat('{'):
            L = []
            while not self.eat('}'):
                L.append(self.constraint())
            return lambda e: [c for b in L for c in b(e)]
        if self.peek() == 'if':
            self.p += 1
            self.want('(')
            c = self.expr()
            self.want(')')
            a = self.constraint()
            b = self.constraint() if self.eat('else') else None
            return lambda e: a(e) if c(e) else b(e) if b else []
        if self.eat(';'):
            return lambda e: []
        if self.peek(1) == ':' and self.t[self.p][0] == 'id':
            self.p += 2
            return self.constraint()
        if self.peek(1) in ('[',):      # label[i][j] : ...
            p = self.p
            try:
                self.ident()
                while self.eat('['):
                    self.expr()
                    self.want(']')
                if self.eat(':'):
                    return self.constraint()
            except Unsupported:
                pass
            self.p = p
        x = self.expr()
        self.want(';')

        def f(e):
            v = x(e)
            return v if isinstance(v, list) else [v]
        return f

    # -- declarations
    def dims(self):
        out = []
        while self.eat('['):
            while True:
                if self.peek(1) == 'in':
                    self.p += 2
                out.append(self.rng())
                if not self.eat(','):
                    break
            self.want(']')
        return out

    def program(self):
        while self.p < len(self.t):
            w = self.peek()
            if w in ('int', 'float', 'range', 'dvar', 'dexpr', 'constraint'):
                self.p += 1
                self.declaration(w)
            elif w in ('minimize', 'maximize'):
                self.p += 1
                self.obj = (1 if w == 'minimize' else -1, self.expr())
                self.want(';')
            elif w in ('subject', 'constraints'):
                self.p += 1
                if w == 'subject':
                    self.want('to')
                self.cons.append(self.constraint())
            elif not self.eat(';'):
                raise Unsupported('statement %r' % w)
        return self

    def declaration(self, w):
        if w == 'range':
            n = self.ident()
            self.want('=')
            r = self.rng()
            self.want(';')
            self.decl.append(('range', n, r))
            return
        typ = w
        if w in ('dvar', 'dexpr'):
            typ = self.ident()
            if self.eat('+'):
                typ += '+'
        if w == 'constraint':
            self.ident()
            self.dims()
            self.want(';')
            return
        n = self.ident()
        d = self.dims()
        lo = hi = None
        if w == 'dvar':
            if self.eat('in'):
                lo = self.arith()
                self.want('..')
                hi = self.arith()
            self.decl.append(('dvar', n, typ, d, lo, hi))
        else:
            self.want('=')
            if self.eat('...'):
                self.decl.append(('data', n, typ, d))
            else:
                self.decl.append(('dexpr' if w == 'dexpr' else 'value', n, self.expr(), d))
        self.want(';')

    def run(self, data):
        """-> variables [(name, index, lo, hi, integer)], objective (sense, Lin), constraints [('con', op, Lin) or bool], environment"""
        e, V = {}, []
        inf = float('inf')

        def table(rs, f, ix=()):
            if not rs:
                return f(ix)
            return {i: table(rs[1:], f, ix + (i,)) for i in rs[0]}

        def fill(rs, a):
            if not rs:
                return a
            if len(a) != len(rs[0]):
                raise Unsupported('%d values for a range of %d' % (len(a), len(rs[0])))
            return {i: fill(rs[1:], x) for i, x in zip(rs[0], a)}
        for d in self.decl:
            if d[0] == 'range':
                e[d[1]] = d[2](e)
            elif d[0] == 'data':
                e[d[1]] = fill([r(e) for r in d[3]], data[d[1]])
            elif d[0] == 'value':
                if d[3]:
                    raise Unsupported('computed table')
                e[d[1]] = d[2](e)
            elif d[0] == 'dexpr':
                if d[3]:
                    raise Unsupported('dexpr table')
                e[d[1]] = d[2](e)
            else:
                _, n, typ, rs, lo, hi = d
                a, b = {'boolean': (0, 1), 'float': (-inf, inf), 'float+': (0, inf), 'int': (-inf, inf), 'int+': (0, inf)}[typ]
                a, b = lo(e) if lo else a, hi(e) if hi else b

                def new(ix):
                    V.append((n, ix, a, b, typ in ('boolean', 'int', 'int+')))
                    return Lin({len(V) - 1: 1})
                e[n] = table([r(e) for r in rs], new)
        s, o = self.obj if self.obj else (1, lambda e: 0)
        return V, (s, o(e)), [c for b in self.cons for c in b(e)], e
