"""Reference parser for the shorthand of Triples ("s(a2)2-3s(a3b)"), written from the README grammar only.

expr   := ['-'|'+'] term { ('+'|'-') term }
term   := factor { ['*'] factor | '/' factor }        (division binds the next factor only)
factor := base [ ['^'|'**'] INT ]
base   := NUMBER | SYMBOL | 's(' expr ')' | 'p(' expr ')' | '(' expr ')' | sqrt(expr)
A digit right after a symbol or ')' is a power.  s / p: sum / product over the cyclic images of the gens
(all images of the permutation list given)."""
import sympy as sp


class Bad(Exception):
    pass


class P:
    def __init__(self, text, gens='abc', perms=None):
        self.t = text.replace(' ', '').replace('**', '^')
        self.i = 0
        self.gens = [sp.Symbol(g) for g in gens]
        self.names = {g.name: g for g in self.gens}
        n = len(self.gens)
        self.perms = perms or [tuple((i + k) % n for i in range(n)) for k in range(n)]

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ''

    def parse(self):
        e = self.expr()
        if self.i != len(self.t):
            raise Bad('trailing %r' % self.t[self.i:])
        return e

    def expr(self):
        sign = 1
        while self.peek() in '+-' and self.peek():
            if self.peek() == '-':
                sign = -sign
            self.i += 1
        tot = sign * self.term()
        while self.peek() and self.peek() in '+-':
            s = 1 if self.peek() == '+' else -1
            self.i += 1
            tot = tot + s * self.term()
        return tot

    def term(self):
        v = self.factor()
        while True:
            c = self.peek()
            if c == '*':
                self.i += 1
                v = v * self.factor()
            elif c == '/':
                self.i += 1
                v = v / self.factor()
            elif c and (c.isalnum() or c == '('):
                v = v * self.factor()
            else:
                return v

    def number(self):
        j = self.i
        while self.i < len(self.t) and self.t[self.i].isdigit():
            self.i += 1
        if self.peek() == '.' and self.i + 1 < len(self.t) and self.t[self.i + 1].isdigit():
            self.i += 1
            while self.i < len(self.t) and self.t[self.i].isdigit():
                self.i += 1
        if j == self.i:
            raise Bad('number expected at %d' % j)
        return sp.Rational(self.t[j:self.i])

    def factor(self):
        c = self.peek()
        isnum = False
        if c.isdigit():
            v = self.number()
            isnum = True
        elif self.t.startswith('sqrt(', self.i):
            self.i += 5
            v = sp.sqrt(self.expr())
            self.close()
        elif c in 'sp' and self.t[self.i + 1:self.i + 2] == '(':
            self.i += 2
            e = sp.sympify(self.expr())
            self.close()
            imgs = [e.xreplace({self.gens[i]: self.gens[p[i]] for i in range(len(self.gens))}) for p in self.perms]
            v = sp.Add(*imgs) if c == 's' else sp.Mul(*imgs)
        elif c == '(':
            self.i += 1
            v = self.expr()
            self.close()
        elif c in self.names:
            self.i += 1
            v = self.names[c]
        else:
            raise Bad('unexpected %r at %d' % (c, self.i))
        if self.peek() == '^':
            self.i += 1
            n = self.number()
            v = v ** n
        elif not isnum and self.peek().isdigit():
            v = v ** self.number()
        return v

    def close(self):
        if self.peek() != ')':
            raise Bad('")" expected')
        self.i += 1


def parse(text, gens='abc', perms=None):
    return P(text, gens, perms).parse()


class P2(P):
    """as P; other lowercase letters are parameters, '**' and '*' as usual, powers may be parenthesised"""

    def factor(self):
        c = self.peek()
        if c.isalpha() and c not in self.names and not (c in 'sp' and self.t[self.i + 1:self.i + 2] == '(') and not self.t.startswith('sqrt(', self.i):
            self.names = dict(self.names)
            self.names[c] = sp.Symbol(c)
        return super().factor()

    def number(self):
        if self.peek() == '(':
            self.i += 1
            v = self.expr()
            self.close()
            return v
        return super().number()
