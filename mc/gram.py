"""An independent lexer and recogniser of the .bb grammar (bubbler.g4), used as
an oracle: a text outside the grammar must be refused."""
import re

KW = {'syntax', 'import', 'get', 'set', 'value', 'package', 'option', 'void', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float32', 'float64', 'bool', 'string', 'bytes', 'enum', 'struct'}
BASIC = {'bool', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float32', 'float64'}
SYM = ['**', '<<', '>>', '<=', '>=', '==', '!=', '&&', '||', *'#;=?()[]{}<>.,:+-*/%&|^~!']
RULES = [('ws', re.compile(r'[ \t\r\n\f]+')), ('ws', re.compile(r'//[^\r\n]*')), ('ws', re.compile(r'/\*.*?\*/', re.S)),
         ('STR', re.compile(r"'(?:\\[xX][0-9a-fA-F]{2}|\\[0-7]{3}|\\[abfnrtv\\'\"]|[^\0\n\\'])*'", re.S)),
         ('STR', re.compile(r'"(?:\\[xX][0-9a-fA-F]{2}|\\[0-7]{3}|\\[abfnrtv\\\'"]|[^\0\n\\"])*"', re.S)),
         ('FLOAT', re.compile(r'[0-9]+\.[0-9]*(?:[eE][+-]?[0-9]+)?|[0-9]+[eE][+-]?[0-9]+|\.[0-9]+(?:[eE][+-]?[0-9]+)?')),
         ('INT', re.compile(r'0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*')), ('ID', re.compile(r'[A-Za-z_][A-Za-z_0-9]*'))]


# in this order the first alternative that matches is the longest token
ONE = re.compile('|'.join([*(f'(?P<{k}{i if k != "ID" else ""}>{r.pattern})' for i, (k, r) in enumerate(RULES)), '(?P<SYM>' + '|'.join(re.escape(y) for y in SYM) + ')']), re.S)


def lex(s):
    """-> [(kind, text)] or None when some character belongs to no token"""
    out, i, n = [], 0, len(s)
    match = ONE.match
    while i < n:
        m = match(s, i)
        if not m:
            return None
        i = m.end()
        g = m.lastgroup
        if g[0] == 'w':
            continue
        t = m.group()
        if g == 'ID':
            g = t if t in KW else 'BOOL' if t in ('true', 'false') else 'FLOAT' if t in ('inf', 'nan') else 'ID'
        elif g == 'SYM':
            g = t
        else:
            g = g.rstrip('0123456789')
        out.append((g, t))
    return out


class No(Exception):
    pass


class P:
    """one-token look-ahead recogniser with backtracking where the grammar needs it"""
    def __init__(self, toks):
        self.t = [k for k, _ in toks] + ['EOF', 'EOF', 'EOF']
        self.i = 0

    def at(self, *k):
        return self.t[self.i] in k

    def eat(self, *k):
        if self.t[self.i] not in k:
            raise No
        self.i += 1

    def opt(self, *k):
        if self.t[self.i] in k:
            self.i += 1
            return True
        return False

    def attempt(self, *alts):
        """first alternative that matches a prefix (the rest decides by itself)"""
        i = self.i
        for a in alts:
            try:
                a()
                return
            except No:
                self.i = i
        raise No

    def proto(self):
        while not self.at('EOF'):
            if self.opt(';'):
                continue
            if self.opt('import'):
                self.eat('STR'), self.eat(';')
            elif self.opt('package'):
                self.eat('ID')
                while self.opt('.'):
                    self.eat('ID')
                self.eat(';')
            elif self.opt('option'):
                self.eat('ID'), self.eat('='), self.constant(), self.eat(';')
            elif self.at('enum'):
                self.enum()
            elif self.at('struct'):
                self.struct()
            else:
                raise No

    def constant(self):
        if self.opt('+', '-'):
            self.eat('INT', 'FLOAT')
        else:
            self.eat('INT', 'FLOAT', 'STR', 'BOOL')

    def size(self):
        self.eat('[')
        if self.opt('INT'):
            if self.opt('#'):
                self.eat('INT')
        else:
            self.eat('#'), self.eat('INT')
        self.eat(']')

    def optsize(self):
        if self.at('[') and self.t[self.i + 1] in ('INT', '#'):
            self.size()

    def options(self):
        if self.opt('['):
            while True:
                self.eat('ID'), self.eat('='), self.constant()
                if not self.opt(','):
                    break
            self.eat(']')

    def enum(self):
        self.eat('enum'), self.eat('ID'), self.size(), self.eat('{')
        while not self.opt('}'):
            if self.opt(';'):
                continue
            self.eat('ID')
            if self.opt('='):
                if not self.opt('ID'):
                    self.constant()
            self.options()
            self.eat(';', ',')

    def struct(self):
        self.eat('struct'), self.eat('ID'), self.optsize(), self.eat('{')
        while not self.opt('}'):
            if self.opt(';'):
                continue
            self.field()

    def field(self):
        if self.opt('void'):
            self.size(), self.options(), self.eat(';')
            return
        i = self.i
        if self.opt(*BASIC):
            # a constant field?
            try:
                self.opt('ID')
                self.optsize()
                self.eat('=')
                if not self.opt('ID'):
                    self.constant()
                self.options(), self.eat(';')
                return
            except No:
                self.i = i
        self.type()
        if self.opt('ID'):
            self.optsize()
            self.options()
            if self.opt('{'):
                while not self.opt('}'):
                    self.method()
        else:
            self.options()
        self.eat(';')

    def element(self):
        if self.opt('ID', 'string', 'bytes', *BASIC):
            return
        if self.at('struct'):
            # a definition or a reference
            if self.t[self.i + 1] == 'ID' and self.t[self.i + 2] in ('[', '{'):
                i = self.i
                try:
                    self.struct()
                    return
                except No:
                    self.i = i
            self.eat('struct'), self.eat('ID')
            return
        self.eat('enum'), self.eat('ID')

    def type(self):
        self.element()
        if self.opt('<'):
            self.eat('INT'), self.eat('>')

    def method(self):
        self.eat('get', 'set')
        self.opt('ID')
        self.eat('('), self.eat(*BASIC), self.eat(')'), self.eat(':'), self.expr(), self.eat(';')

    BIN = {'**', '*', '/', '%', '+', '-', '<<', '>>', '<', '<=', '>', '>=', '==', '!=', '&', '^', '|', '&&', '||'}

    def expr(self):
        self.operand()
        while True:
            if self.opt(*self.BIN):
                self.operand()
            elif self.opt('?'):
                self.expr(), self.eat(':')
                self.operand()
            else:
                return

    def operand(self):
        while True:
            if self.opt('+', '-', '~', '!'):
                continue
            if self.at('(') and self.t[self.i + 1] in BASIC:
                self.i += 2
                self.eat(')')
                continue
            break
        if self.opt('('):
            self.expr(), self.eat(')')
            return
        self.eat('value', 'INT', 'FLOAT', 'STR', 'BOOL')


def grammatical(text):
    t = lex(text)
    if t is None:
        return False
    p = P(t)
    try:
        p.proto()
        return p.at('EOF')
    except No:
        return False
