"""Readers of the printed forms of solutions: plain text (Σ, ∏, superscripts) and LaTeX.

Conventions (those a mathematical reader applies):
* juxtaposition is multiplication; '/' binds the next factor only;
* text: Σ / ∏ (or s( ) / p( )) take the product that follows, up to the next + or - at the same level;
* LaTeX: \\sum / \\prod take the factors that follow, up to the next +, -, \\sum or \\prod at the same level
  (so \\sum a \\sum b is a product of two sums)."""
import re

import sympy as sp

SUP = {c: str(i) for i, c in enumerate('⁰¹²³⁴⁵⁶⁷⁸⁹')}


class Bad(Exception):
    pass


class Base:
    def __init__(self, toks, names, gens, perms):
        self.t, self.i = toks, 0
        self.names, self.gens, self.perms = names, gens, perms

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def want(self, x):
        if self.next() != x:
            raise Bad('%r expected at token %d of %s' % (x, self.i - 1, ' '.join(map(str, self.t))))

    def parse(self):
        e = self.expr()
        if self.i != len(self.t):
            raise Bad('trailing %r in %s' % (self.t[self.i:], ' '.join(map(str, self.t))))
        return e

    def expr(self):
        tot, first = sp.S.Zero, True
        while True:
            sign, seen = 1, False
            while self.peek() in ('+', '-'):
                seen = True
                if self.next() == '-':
                    sign = -sign
            if not first and not seen:
                return tot
            tot += sign * self.term()
            first = False

    def image(self, op, body):
        imgs = [body.xreplace({self.gens[i]: self.gens[p[i]] for i in range(len(self.gens))}) for p in self.perms]
        return sp.Add(*imgs) if op == 'S' else sp.Mul(*imgs)


class Text(Base):
    def starts(self, t):
        return t is not None and (t in ('(', 'S', 'P', 'sqrt') or t[0].isdigit() or t in self.names)

    def term(self):
        v = self.factor()
        while True:
            t = self.peek()
            if t == '*':
                self.next()
                v = v * self.factor()
            elif t == '/':
                self.next()
                v = v / self.factor()
            elif self.starts(t):
                v = v * self.factor()
            else:
                return v

    def factor(self):
        t = self.next()
        if t in ('S', 'P'):
            return self.image(t, sp.sympify(self.term()))
        if t == '(':
            v = self.expr()
            self.want(')')
        elif t == 'sqrt':
            self.want('(')
            v = sp.sqrt(self.expr())
            self.want(')')
        elif t is not None and t[0].isdigit():
            v = sp.Rational(t)
        elif t in self.names:
            v = self.names[t]
        else:
            raise Bad('unexpected %r in %s' % (t, ' '.join(map(str, self.t))))
        if self.peek() == '^':
            self.next()
            sign = 1
            if self.peek() == '-':
                self.next()
                sign = -1
            n = self.next()
            if n == '(':
                n = self.expr()
                self.want(')')
            else:
                n = sp.Rational(n)
            v = v ** (sign * n)
        return v


def text_tokens(s, short):
    """short: s( and p( are the sum and the product"""
    s = re.sub('[⁰¹²³⁴⁵⁶⁷⁸⁹]+', lambda m: '^' + ''.join(SUP[c] for c in m.group(0)), s)
    s = s.replace('**', '^').replace('Σ', '\x01').replace('∏', '\x02')
    toks, i = [], 0
    while i < len(s):
        c = s[i]
        if c == ' ':
            i += 1
        elif c == '\x01' or (short and s.startswith('s(', i)):
            toks.append('S'), toks.append('S(') if False else None
            i += 1
        elif c == '\x02' or (short and s.startswith('p(', i)):
            toks.append('P')
            i += 1
        elif s.startswith('sqrt(', i):
            toks.append('sqrt')
            i += 4
        elif c.isdigit():
            m = re.match(r'\d+(\.\d+)?', s[i:])
            toks.append(m.group(0))
            i += len(m.group(0))
        else:
            toks.append(c)
            i += 1
    return [t for t in toks if t is not None]


class Short(Text):
    """formatted text: s( ) and p( ) bind their parenthesis only"""

    def factor(self):
        if self.peek() in ('S', 'P'):
            op = self.next()
            self.want('(')
            v = self.image(op, sp.sympify(self.expr()))
            self.want(')')
            if self.peek() == '^':
                self.next()
                v = v ** sp.Rational(self.next())
            return v
        return super().factor()


def read_text(s, names, gens, perms):
    return Text(text_tokens(s, False), names, gens, perms).parse()


def read_short(s, names, gens, perms):
    return Short(text_tokens(s, True), names, gens, perms).parse()


def latex_tokens(s):
    s = re.sub(r'_\{\\mathrm\{(cyc|sym|alt|dih)\}\}', '', s)
    for k in ('\\left', '\\right', '\\,', '\\displaystyle'):
        s = s.replace(k, '')
    toks = re.findall(r'\\[a-zA-Z]+|\d+(?:\.\d+)?|\S', s)
    return toks


class Latex(Base):
    def starts(self, t):
        return t is not None and (t in ('(', '{', '\\sum', '\\prod', '\\sqrt', '\\frac', '[') or t[0].isdigit() or t in self.names)

    def term(self, stop_at_op=False):
        v = None
        while True:
            t = self.peek()
            if t in ('\\sum', '\\prod'):
                if stop_at_op and v is not None:
                    return v
                f = self.bigop()
            elif t in ('\\cdot', '\\times'):
                self.next()
                continue
            elif t == '/':
                self.next()
                f = 1 / self.factor()
            elif self.starts(t):
                f = self.factor()
            elif v is None:
                raise Bad('unexpected %r in %s' % (t, ' '.join(self.t)))
            else:
                return v
            v = f if v is None else v * f

    def bigop(self):
        t = self.next()
        sign = 1
        while self.peek() == '-':
            self.next()
            sign = -sign
        # \sum \prod x: the product is the body
        if self.peek() in ('\\sum', '\\prod'):
            body = self.bigop()
        else:
            body = self.term(stop_at_op=True)
        return self.image('S' if t == '\\sum' else 'P', sp.sympify(sign * body))

    def group(self):
        if self.peek() == '{':
            self.next()
            v = self.expr()
            self.want('}')
            return v
        t = self.next()
        if t in self.names:
            return self.names[t]
        if t is not None and t[0].isdigit():
            if len(t) > 1:
                self.t[self.i - 1:self.i] = [t[0], t[1:]]
            return sp.Integer(t[0])
        raise Bad('argument expected')

    def factor(self):
        t = self.next()
        if t in ('(', '['):
            v = self.expr()
            self.want(')' if t == '(' else ']')
        elif t == '{':
            v = self.expr()
            self.want('}')
        elif t == '\\frac':
            a = self.group()
            b = self.group()
            v = a / b
        elif t == '\\sqrt':
            n = sp.Integer(2)
            if self.peek() == '[':
                self.next()
                n = self.expr()
                self.want(']')
            v = sp.Pow(self.group(), 1 / n)
        elif t is not None and t[0].isdigit():
            v = sp.Rational(t)
        elif t in self.names:
            v = self.names[t]
        else:
            raise Bad('unexpected %r in %s' % (t, ' '.join(self.t)))
        if self.peek() == '^':
            self.next()
            v = v ** self.group()
        return v


def read_latex(s, names, gens, perms):
    return Latex(latex_tokens(s), names, gens, perms).parse()
