"""Reference model of the C subset umlcc implements.

An independent front end (lexer, recursive-descent parser, constraint checker) plus an
abstract machine (compiled to Python closures) written from C99, the x86-64 System V ABI
sizes and the language subset umlcc accepts - NOT from umlcc's source text.

Verdicts:
  Reject   the program violates a C constraint/syntax rule a compiler must diagnose
  Unsup    valid C (or a grey area) which the subset does not promise: either verdict is fine
  UB       the execution has undefined/unspecified behaviour: no expectation
"""
import sys
sys.setrecursionlimit(20000)


class Reject(Exception):
    pass


class Unsup(Exception):
    pass


class UB(Exception):
    pass


class StepLimit(UB):
    pass


KEYWORDS = set('break case char continue default else enum for if int long return sizeof struct '
               'switch typedef unsigned void while'.split())
OTHER_KEYWORDS = set('auto const do double extern float goto inline register restrict short signed static union volatile '
                     '_Bool _Complex _Imaginary'.split())
PUNCT = ['<<=', '>>=', '->', '++', '--', '<<', '>>', '<=', '>=', '==', '!=', '&&', '||', '*=', '/=', '%=', '+=',
         '-=', '&=', '^=', '|=', '[', ']', '(', ')', '{', '}', '.', '&', '*', '+', '-', '~', '!', '/', '%', '<',
         '>', '^', '|', '?', ':', ';', '=', ',']
P3 = set(p for p in PUNCT if len(p) == 3)
P2 = set(p for p in PUNCT if len(p) == 2)
P1 = set(p for p in PUNCT if len(p) == 1)
NONDIGIT = set('_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
DIGIT = set('0123456789')
ALNUM = NONDIGIT | DIGIT
SIMPLE_ESC = {"'": 39, '"': 34, '?': 63, '\\': 92, 'a': 7, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9, 'v': 11}
SUFFIX = {'': (0, 0)}
for _u in ('u', 'U'):
    SUFFIX[_u] = (1, 0)
    for _l in ('l', 'L'):
        SUFFIX[_u + _l] = SUFFIX[_l + _u] = (1, 1)
        SUFFIX[_u + _l + _l] = SUFFIX[_l + _l + _u] = (1, 2)
for _l in ('l', 'L'):
    SUFFIX[_l] = (0, 1)
    SUFFIX[_l + _l] = (0, 2)


class T:
    __slots__ = ('kind', 'size', 'align', 'sub', 'n', 'params', 'members', 'name', 'lo', 'hi', 'rank', 'signed',
                 'mask', 'half', '_ptr')

    def __init__(self, kind, size=0, align=1):
        self.kind = kind
        self.size = size
        self.align = align
        self.sub = self.n = self.params = self.members = self.name = self._ptr = None
        self.rank = 0
        self.signed = False

    def __repr__(self):
        return tyname(self)


def _int(kind, size, rank, signed):
    t = T(kind, size, size)
    t.rank = rank
    t.signed = signed
    t.mask = (1 << 8 * size) - 1
    t.half = 1 << (8 * size - 1)
    t.lo, t.hi = (-t.half, t.half - 1) if signed else (0, t.mask)
    return t


VOID = T('void')
CHAR = _int('char', 1, 1, True)
INT = _int('int', 4, 3, True)
UINT = _int('unsigned int', 4, 3, False)
LONG = _int('long', 8, 4, True)
ULONG = _int('unsigned long', 8, 4, False)
LLONG = _int('long long', 8, 5, True)
ULLONG = _int('unsigned long long', 8, 5, False)
INTS = [CHAR, INT, UINT, LONG, ULONG, LLONG, ULLONG]
UNSIGNED_OF = {LONG: ULONG, LLONG: ULLONG, INT: UINT}


def ptr(t):
    if t._ptr is None:
        p = T('ptr', 8, 8)
        p.sub = t
        t._ptr = p
    return t._ptr


def arr(t, n):
    a = T('arr', t.size * n, t.align)
    a.sub = t
    a.n = n
    return a


def func(ret, params):
    f = T('func')
    f.sub = ret
    f.params = params
    return f


def mkstruct(name):
    s = T('struct')
    s.name = name
    return s


def complete_struct(s, members):
    off = 0
    al = 1
    ms = {}
    order = []
    for nm, t in members:
        off = (off + t.align - 1) // t.align * t.align
        ms[nm] = (off, t)
        order.append((nm, off, t))
        off += t.size
        al = max(al, t.align)
    s.size = (off + al - 1) // al * al
    s.align = al
    s.members = ms
    s.n = order


def is_int(t):
    return t.rank > 0


def is_scalar(t):
    return t.rank > 0 or t.kind == 'ptr'


def incomplete(t):
    return t.kind == 'void' or (t.kind == 'struct' and t.members is None) or (t.kind == 'arr' and incomplete(t.sub))


def same(a, b):
    if a is b:
        return True
    if a.kind != b.kind:
        return False
    if a.kind == 'ptr':
        return same(a.sub, b.sub)
    if a.kind == 'arr':
        return a.n == b.n and same(a.sub, b.sub)
    if a.kind == 'func':
        return same(a.sub, b.sub) and len(a.params) == len(b.params) and all(
            same(x, y) for x, y in zip(a.params, b.params))
    return False


def tyname(t, inner=''):
    k = t.kind
    if k == 'ptr':
        return tyname(t.sub, '(*' + inner + ')' if t.sub.kind in ('arr', 'func') else '*' + inner)
    if k == 'arr':
        return tyname(t.sub, '%s[%d]' % (inner, t.n))
    if k == 'func':
        return tyname(t.sub, inner + '(' + (', '.join(tyname(p) for p in t.params) or 'void') + ')')
    if k == 'struct':
        return ('struct ' + (t.name or '<anon>') + ' ' + inner).strip()
    return (k + ' ' + inner).strip()


def wrap(t, v):
    v &= t.mask
    if t.signed and v >= t.half:
        v -= t.mask + 1
    return v


def promote(t):
    return INT if t is CHAR else t


def usual(a, b):
    a = promote(a)
    b = promote(b)
    if a is b:
        return a
    if a.signed == b.signed:
        return a if a.rank >= b.rank else b
    s, u = (a, b) if a.signed else (b, a)
    if u.rank >= s.rank:
        return u
    if s.size > u.size:
        return s
    return UNSIGNED_OF[s]


# ------------------------------------------------------------------ lexer
def lex(src):
    """src: str (latin-1 decoded bytes). Returns list of (kind, value)."""
    toks = []
    i = 0
    n = len(src)
    if '\0' in src:
        raise Reject('null character')
    while i < n:
        c = src[i]
        if c in ' \t\n\v\f':
            i += 1
            continue
        if c in NONDIGIT:
            j = i + 1
            while j < n and src[j] in ALNUM:
                j += 1
            w = src[i:j]
            if w in OTHER_KEYWORDS:
                raise Unsup('keyword of C outside the subset')
            toks.append(('kw' if w in KEYWORDS else 'id', w))
            i = j
            continue
        if c in DIGIT:
            j = i
            # pp-number
            while j < n and (src[j] in ALNUM or src[j] == '.'):
                if src[j] in 'eEpP' and j + 1 < n and src[j + 1] in '+-':
                    # 0xE+1 is one pp-number in C; grey
                    if not (src[i:i + 2] in ('0x', '0X') and src[j] in 'pP'):
                        if src[i:i + 2] in ('0x', '0X'):
                            raise Unsup('pp-number 0x..e+')
                        raise Reject('float')
                j += 1
            w = src[i:j]
            if '.' in w:
                raise Unsup('float constant')
            toks.append(('int', int_const(w)))
            i = j
            continue
        if c == "'":
            i += 1
            vals = []
            while True:
                if i >= n:
                    raise Reject('unterminated char const')
                c = src[i]
                if c == "'":
                    i += 1
                    break
                if c == '\n':
                    raise Reject('newline in char const')
                if c == '\\':
                    v, i = escape(src, i + 1)
                    vals.append(v)
                else:
                    vals.append(ord(c))
                    i += 1
            if not vals:
                raise Reject('empty char const')
            if len(vals) > 1:
                raise Unsup('multi-char constant')
            toks.append(('int', (wrap(CHAR, vals[0]), INT, 'chr')))
            continue
        if c == '"':
            i += 1
            vals = []
            while True:
                if i >= n:
                    raise Reject('unterminated string')
                c = src[i]
                if c == '"':
                    i += 1
                    break
                if c == '\n':
                    raise Reject('newline in string')
                if c == '\\':
                    v, i = escape(src, i + 1)
                    vals.append(v)
                else:
                    vals.append(ord(c))
                    i += 1
            toks.append(('str', bytes(vals) + b'\0'))
            continue
        if src[i:i + 2] in ('//', '/*'):
            raise Unsup('comment')
        if src[i:i + 2] in ('<:', ':>', '<%', '%>', '%:'):
            raise Unsup('digraph')
        if src[i:i + 3] in P3:
            toks.append(('p', src[i:i + 3]))
            i += 3
        elif src[i:i + 2] in P2:
            toks.append(('p', src[i:i + 2]))
            i += 2
        elif c in P1:
            if c == '.' and i + 1 < n and src[i + 1] in DIGIT:
                raise Unsup('float constant')
            toks.append(('p', c))
            i += 1
        elif c in '#\\':
            raise Unsup('preprocessor / line splice')
        elif c == '\r':
            raise Unsup('CR')
        else:
            raise Reject('bad character %r' % c)
    toks.append(('eof', ''))
    return toks


def int_const(w):
    j = len(w)
    if w[:2] in ('0x', '0X'):
        base, body = 16, w[2:]
        digs = '0123456789abcdefABCDEF'
    elif w[0] == '0':
        base, body = 8, w
        digs = '01234567'
    else:
        base, body = 10, w
        digs = '0123456789'
    k = 0
    while k < len(body) and body[k] in digs:
        k += 1
    if k == 0:
        raise Reject('no digits')
    suf = body[k:]
    if suf not in SUFFIX:
        raise Reject('bad suffix ' + suf)
    v = int(body[:k], base)
    u, l = SUFFIX[suf]
    cand = []
    for lev in range(l, 3):
        st, ut = [(INT, UINT), (LONG, ULONG), (LLONG, ULLONG)][lev]
        if not u:
            cand.append(st)
        if u or base != 10:
            cand.append(ut)
    for t in cand:
        if t.lo <= v <= t.hi:
            return (v, t, 'int')
    raise Reject('constant too large')


def escape(src, i):
    n = len(src)
    if i >= n:
        raise Reject('eof in escape')
    c = src[i]
    if c == '\n':
        raise Unsup('line splice')
    if c in SIMPLE_ESC:
        return SIMPLE_ESC[c], i + 1
    if c in '01234567':
        j = i
        while j < n and j < i + 3 and src[j] in '01234567':
            j += 1
        v = int(src[i:j], 8)
        if v > 255:
            raise Reject('octal escape range')
        return v, j
    if c == 'x':
        j = i + 1
        while j < n and src[j] in '0123456789abcdefABCDEF':
            j += 1
        if j == i + 1:
            raise Reject('\\x with no digits')
        v = int(src[i + 1:j], 16)
        if v > 255:
            raise Reject('hex escape range')
        return v, j
    raise Reject('bad escape')


# ------------------------------------------------------------------ parser
class Parser:
    """Produces nested tuples. Typedef names are scoped (C rules)."""

    def __init__(self, toks):
        self.t = toks
        self.i = 0
        self.scopes = [{}]      # name -> True if typedef, False if ordinary
        self.alltd = set()      # every name ever a typedef (for grey-area detection)

    def peek(self):
        return self.t[self.i]

    def isp(self, v):
        k, x = self.t[self.i]
        return k == 'p' and x == v

    def iskw(self, v):
        k, x = self.t[self.i]
        return k == 'kw' and x == v

    def accept(self, v):
        if self.isp(v):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise Reject('expected %s got %s' % (v, self.peek()))

    def is_td(self, name):
        for s in reversed(self.scopes):
            if name in s:
                if s[name] is False and name in self.alltd:
                    raise Unsup('typedef name shadowed')
                return s[name]
        if name in self.alltd:
            raise Unsup('typedef name out of scope')
        return False

    def declare(self, name, td):
        if td:
            self.alltd.add(name)
        elif name in self.alltd:
            raise Unsup('typedef name redeclared as ordinary identifier')
        self.scopes[-1][name] = td

    def is_type_start(self, k=0):
        kind, v = self.t[self.i + k]
        if kind == 'kw':
            return v in ('void', 'char', 'int', 'long', 'unsigned', 'struct', 'enum', 'typedef')
        return kind == 'id' and self.is_td(v)

    # -------- expressions
    def expr(self):
        e = self.assign()
        if self.isp(','):
            # comma operator unsupported; callers that allow ',' never get here
            raise Unsup('comma operator')
        return e

    def assign(self):
        # unary assignop assign | cond
        e = self.cond()
        k, v = self.peek()
        if k == 'p' and v in ('=', '*=', '/=', '%=', '+=', '-=', '<<=', '>>=', '&=', '^=', '|='):
            if not unaryish(e):
                raise Reject('lhs of assignment is not a unary expression')
            self.i += 1
            r = self.assign()
            return ('assign', v, e, r)
        return e

    def cond(self):
        c = self.binary(0)
        if self.accept('?'):
            a = self.assign()
            if self.isp(','):
                raise Unsup('comma operator')
            self.expect(':')
            b = self.cond()
            return ('cond', c, a, b)
        return c

    LEVELS = [['||'], ['&&'], ['|'], ['^'], ['&'], ['==', '!='], ['<', '>', '<=', '>='], ['<<', '>>'], ['+', '-'],
              ['*', '/', '%']]

    def binary(self, lev):
        if lev == len(self.LEVELS):
            return self.cast()
        e = self.binary(lev + 1)
        ops = self.LEVELS[lev]
        while True:
            k, v = self.peek()
            if k == 'p' and v in ops:
                self.i += 1
                r = self.binary(lev + 1)
                e = ('bin', v, e, r)
            else:
                return e

    def cast(self):
        if self.isp('(') and self.is_type_start(1):
            self.i += 1
            ty = self.type_name()
            self.expect(')')
            if self.isp('{'):
                raise Unsup('compound literal')
            return ('cast', ty, self.cast())
        return self.unary()

    def unary(self):
        k, v = self.peek()
        if k == 'p':
            if v in ('++', '--'):
                self.i += 1
                return ('preinc', v, self.unary())
            if v in ('&', '*', '+', '-', '~', '!'):
                self.i += 1
                return ('un', v, self.cast())
        if k == 'kw' and v == 'sizeof':
            self.i += 1
            if self.isp('(') and self.is_type_start(1):
                self.i += 1
                ty = self.type_name()
                self.expect(')')
                if self.isp('{'):
                    raise Unsup('compound literal')
                return ('sizeoft', ty)
            return ('sizeofe', self.unary())
        return self.postfix()

    def postfix(self):
        e = self.primary()
        while True:
            if self.accept('['):
                x = self.expr()
                self.expect(']')
                e = ('idx', e, x)
            elif self.accept('('):
                args = []
                if not self.isp(')'):
                    while True:
                        args.append(self.assign())
                        if not self.accept(','):
                            break
                self.expect(')')
                e = ('call', e, args)
            elif self.isp('.') or self.isp('->'):
                op = self.peek()[1]
                self.i += 1
                k, v = self.peek()
                if k != 'id':
                    raise Reject('member name expected')
                self.i += 1
                e = ('mem', op, e, v)
            elif self.isp('++') or self.isp('--'):
                op = self.peek()[1]
                self.i += 1
                e = ('postinc', op, e)
            else:
                return e

    def primary(self):
        k, v = self.peek()
        if k == 'id':
            if self.is_td(v):
                raise Reject('typedef name in expression')
            self.i += 1
            return ('id', v)
        if k == 'int':
            self.i += 1
            return ('int', v[0], v[1], v[2])
        if k == 'str':
            self.i += 1
            if self.peek()[0] == 'str':
                raise Unsup('string concatenation')
            return ('str', v)
        if self.accept('('):
            e = self.expr()
            self.expect(')')
            return ('paren', e)
        raise Reject('unexpected token %s' % (self.peek(),))

    # -------- declarations
    def specifiers(self, storage):
        """returns (is_typedef, specs list)"""
        td = 0
        specs = []
        while True:
            k, v = self.peek()
            if k == 'kw' and v == 'typedef':
                if not storage:
                    break
                td += 1
                self.i += 1
            elif k == 'kw' and v in ('void', 'char', 'int', 'long', 'unsigned'):
                specs.append(v)
                self.i += 1
            elif k == 'kw' and v == 'struct':
                specs.append(self.struct_spec())
            elif k == 'kw' and v == 'enum':
                specs.append(self.enum_spec())
            elif k == 'id' and self.is_td(v):
                if specs:
                    # would redeclare a typedef name as an ordinary identifier
                    raise Unsup('typedef name after specifiers')
                specs.append(('td', v))
                self.i += 1
            else:
                break
        if td > 1:
            raise Unsup('duplicate typedef')
        if not specs:
            if td:
                raise Reject('no type specifier')
            raise Reject('declaration specifiers expected')
        return bool(td), specs

    def struct_spec(self):
        self.i += 1
        name = None
        if self.peek()[0] == 'id':
            name = self.peek()[1]
            if name in self.alltd:
                pass
            self.i += 1
        members = None
        if self.accept('{'):
            members = []
            while True:
                _, specs = self.specifiers(False)
                if self.isp(';'):
                    raise Reject('member declarator expected')
                decls = []
                while True:
                    decls.append(self.declarator(False))
                    if not self.accept(','):
                        break
                if self.isp(':'):
                    raise Unsup('bitfield')
                self.expect(';')
                members.append((specs, decls))
                if self.accept('}'):
                    break
        elif name is None:
            raise Reject('struct needs tag or body')
        return ('struct', name, members)

    def enum_spec(self):
        self.i += 1
        name = None
        if self.peek()[0] == 'id':
            name = self.peek()[1]
            self.i += 1
        en = None
        if self.accept('{'):
            en = []
            while True:
                k, v = self.peek()
                if k != 'id':
                    raise Reject('enumerator expected')
                self.i += 1
                val = None
                if self.accept('='):
                    val = self.cond()
                self.declare(v, False)
                en.append((v, val))
                if self.accept(','):
                    if self.accept('}'):
                        break
                    continue
                self.expect('}')
                break
        elif name is None:
            raise Reject('enum needs tag or body')
        return ('enum', name, en)

    def type_name(self):
        _, specs = self.specifiers(False)
        d = self.declarator(True)
        return (specs, d)

    def declarator(self, abstract):
        """returns nested: ('ptr', d) | ('arr', d, sizeexpr) | ('fn', d, params) | ('name', n|None)
        abstract: True / False / None (either, for parameters)"""
        np = 0
        while self.accept('*'):
            np += 1
        d = self.direct(abstract)
        # pointers bind looser than suffixes: wrap at the *innermost* end handled via composition
        for _ in range(np):
            d = ('ptr', d)
        return d

    def direct(self, abstract):
        k, v = self.peek()
        base = None
        if k == 'id':
            if abstract is True:
                raise Reject('identifier in type name')
            if self.is_td(v):
                if abstract is None:
                    raise Unsup('typedef name in parameter declarator')
                raise Unsup('typedef name redeclared')
            self.i += 1
            base = ('name', v)
        elif self.isp('(') and self.paren_is_declarator(abstract):
            self.i += 1
            base = ('group', self.declarator(abstract))
            self.expect(')')
        else:
            if abstract is False:
                raise Reject('declarator expected')
            base = ('name', None)
        suffixes = []
        while True:
            if self.accept('['):
                if self.isp(']'):
                    raise Unsup('unsized array')
                e = self.cond()
                self.expect(']')
                suffixes.append(('arr', e))
            elif self.isp('('):
                self.i += 1
                suffixes.append(('fn', self.params()))
                self.expect(')')
            else:
                break
        d = base
        for s in suffixes:
            d = (s[0], d, s[1])
        return d

    def paren_is_declarator(self, abstract):
        if abstract is False:
            return True
        # '(' starts a nested declarator unless followed by a type or ')'
        k, v = self.t[self.i + 1]
        if k == 'p' and v == ')':
            raise Unsup('empty parameter list in abstract declarator')
        return not self.is_type_start(1)

    def params(self):
        if self.isp(')'):
            raise Unsup('empty parameter list ()')
        ps = []
        self.scopes.append({})
        try:
            while True:
                td, specs = self.specifiers(True)
                if td:
                    raise Reject('storage class in parameter')
                d = self.declarator(None)
                nm = decl_name(d)
                if nm is not None:
                    self.declare(nm, False)
                ps.append((specs, d))
                if not self.accept(','):
                    break
        finally:
            self.scopes.pop()
        return ps

    def initializer(self):
        if self.accept('{'):
            if self.isp('}'):
                raise Unsup('empty initializer list')
            items = []
            while True:
                if self.isp('.') or self.isp('['):
                    raise Unsup('designator')
                items.append(self.initializer())
                if self.accept(','):
                    if self.accept('}'):
                        break
                    continue
                self.expect('}')
                break
            return ('list', items)
        return self.assign()

    def declaration(self, td, specs, first=None):
        """after specifiers; returns ('decl', td, specs, [(declarator, init)])"""
        ds = []
        if first is None and self.accept(';'):
            return ('decl', td, specs, ds)
        while True:
            d = first if first is not None else self.declarator(False)
            first = None
            nm = decl_name(d)
            self.declare(nm, td)
            init = None
            if self.accept('='):
                init = self.initializer()
            ds.append((d, init))
            if not self.accept(','):
                break
        self.expect(';')
        return ('decl', td, specs, ds)

    # -------- statements
    def block_item(self):
        if self.is_type_start():
            td, specs = self.specifiers(True)
            return self.declaration(td, specs)
        return self.stmt()

    def compound(self, newscope=True):
        self.expect('{')
        if newscope:
            self.scopes.append({})
        items = []
        while not self.isp('}'):
            if self.peek()[0] == 'eof':
                raise Reject('unexpected eof')
            items.append(self.block_item())
        self.i += 1
        if newscope:
            self.scopes.pop()
        return ('block', items)

    def stmt(self):
        k, v = self.peek()
        if k == 'p':
            if v == '{':
                return self.compound()
            if v == ';':
                self.i += 1
                return ('null',)
        if k == 'id' and self.t[self.i + 1] == ('p', ':'):
            raise Unsup('label')
        if k == 'kw':
            if v == 'if':
                self.i += 1
                self.expect('(')
                c = self.expr()
                self.expect(')')
                a = self.stmt()
                b = None
                if self.iskw('else'):
                    self.i += 1
                    b = self.stmt()
                return ('if', c, a, b)
            if v == 'while':
                self.i += 1
                self.expect('(')
                c = self.expr()
                self.expect(')')
                return ('while', c, self.stmt())
            if v == 'for':
                self.i += 1
                self.expect('(')
                self.scopes.append({})
                if self.is_type_start():
                    td, specs = self.specifiers(True)
                    if td:
                        raise Unsup('typedef in for')
                    init = self.declaration(td, specs)
                elif self.accept(';'):
                    init = None
                else:
                    init = ('expr', self.expr())
                    self.expect(';')
                c = None
                if not self.isp(';'):
                    c = self.expr()
                self.expect(';')
                s = None
                if not self.isp(')'):
                    s = self.expr()
                self.expect(')')
                b = self.stmt()
                self.scopes.pop()
                return ('for', init, c, s, b)
            if v == 'switch':
                self.i += 1
                self.expect('(')
                c = self.expr()
                self.expect(')')
                return ('switch', c, self.stmt())
            if v == 'case':
                self.i += 1
                c = self.cond()
                self.expect(':')
                return ('case', c, self.stmt())
            if v == 'default':
                self.i += 1
                self.expect(':')
                return ('default', self.stmt())
            if v == 'break' or v == 'continue':
                self.i += 1
                self.expect(';')
                return (v,)
            if v == 'return':
                self.i += 1
                e = None
                if not self.isp(';'):
                    e = self.expr()
                self.expect(';')
                return ('return', e)
        e = self.expr()
        self.expect(';')
        return ('expr', e)

    # -------- top level
    def unit(self):
        items = []
        if self.peek()[0] == 'eof':
            raise Reject('empty translation unit')
        while self.peek()[0] != 'eof':
            td, specs = self.specifiers(True)
            if self.isp(';'):
                items.append(self.declaration(td, specs))
                continue
            d = self.declarator(False)
            if self.isp('{'):
                nm = decl_name(d)
                if td:
                    raise Reject('typedef on function definition')
                self.declare(nm, False)
                self.scopes.append({})
                f = fn_of(d)
                if f is None:
                    raise Reject('body on non-function')
                for specs2, d2 in f[2]:
                    n2 = decl_name(d2)
                    if n2 is not None:
                        self.declare(n2, False)
                body = self.compound(newscope=False)
                self.scopes.pop()
                items.append(('fdef', specs, d, body))
            else:
                items.append(self.declaration(td, specs, d))
        return items


def unaryish(e):
    return e[0] in ('un', 'preinc', 'sizeoft', 'sizeofe', 'idx', 'call', 'mem', 'postinc', 'id', 'int', 'str', 'paren')


def decl_name(d):
    while d[0] != 'name':
        d = d[1]
    return d[1]


def fn_of(d):
    """the ('fn', ...) node applied directly to the name, or None"""
    path = []
    while d[0] != 'name':
        if d[0] != 'group':
            path.append(d)
        d = d[1]
    return path[-1] if path and path[-1][0] == 'fn' else None


# ------------------------------------------------------------------ constraint checker + compiler to closures
class Obj:
    __slots__ = ('data', 'init', 'size', 'name')

    def __init__(self, size, zero=False, name=''):
        self.data = bytearray(size)
        self.init = bytearray(b'\1' * size) if zero else bytearray(size)
        self.size = size
        self.name = name


class Func:
    __slots__ = ('name', 'ty', 'run', 'nslots')

    def __init__(self, name, ty):
        self.name = name
        self.ty = ty
        self.run = None


class ReturnEx(Exception):
    pass


BRK, CNT, RET = 1, 2, 3


class Machine:
    """shared run-time state"""

    def __init__(self):
        self.objs = [None]
        self.trace = []
        self.steps = 0
        self.seek = None
        self.limit = 200000
        self.retval = None
        self.depth = 0


class Program:
    """A checked program. rtl=True evaluates unsequenced operands right to left."""

    def __init__(self, src, externs=None, rtl=False, toks=None):
        self.m = Machine()
        self.rtl = rtl
        self.externs = externs or {}
        self.scopes = [{}]
        self.tags = [{}]
        self.funcs = {}
        self.globals = []      # (name, type, ptr)
        self.grey = False
        self.soft = ''         # reason why a (diagnosed) rejection is acceptable too
        items = Parser(toks if toks is not None else lex(src)).unit()
        self.strs = []
        for it in items:
            self.top(it)
        self.base = len(self.m.objs)
        self.snapshot = [(o, bytes(o.data), bytes(o.init)) if isinstance(o, Obj) else None for o in self.m.objs]

    # ---------------- run
    def reset(self):
        m = self.m
        del m.objs[self.base:]
        for s in self.snapshot:
            if s is not None:
                s[0].data[:] = s[1]
                s[0].init[:] = s[2]
        m.trace = []
        m.depth = 0

    def call(self, name, args=(), limit=200000, reset=True):
        """returns (retval or None, trace). args: python ints (raw) converted to param types"""
        m = self.m
        if reset:
            self.reset()
        m.limit = m.steps + limit
        f = self.funcs[name]
        ps = f.ty.params
        vals = [wrap(t, a) if is_int(t) else a for t, a in zip(ps, args)]
        r = f.run(vals)
        if f.ty.sub.kind == 'void':
            r = None
        elif r is None:
            raise UB('no return value')
        return r, m.trace

    # ---------------- memory
    def new_obj(self, size, zero=False, name=''):
        self.m.objs.append(Obj(size, zero, name))
        return (len(self.m.objs) - 1) << 32

    def mk_load(self, t, af):
        objs = self.m.objs
        size = t.size
        signed = t.signed

        def load(fr):
            p = af(fr)
            o = objs[p >> 32] if p >> 32 < len(objs) else None
            off = p & 0xffffffff
            if o.__class__ is not Obj or off + size > o.size:
                raise UB('bad load')
            if 0 in o.init[off:off + size]:
                raise UB('uninit read')
            return int.from_bytes(o.data[off:off + size], 'little', signed=signed)
        return load

    def mk_store(self, t):
        objs = self.m.objs
        size = t.size
        signed = t.signed
        ones = b'\1' * size

        def store(p, v):
            o = objs[p >> 32] if p >> 32 < len(objs) else None
            off = p & 0xffffffff
            if o.__class__ is not Obj or off + size > o.size:
                raise UB('bad store')
            o.data[off:off + size] = v.to_bytes(size, 'little', signed=signed)
            o.init[off:off + size] = ones
        return store

    # ---------------- scopes
    def lookup(self, name):
        for s in reversed(self.scopes):
            if name in s:
                return s[name]
        return None

    def define(self, name, ent):
        if name in self.scopes[-1]:
            raise Reject('redeclared ' + name)
        self.scopes[-1][name] = ent

    # ---------------- types
    def spec_type(self, specs):
        base = []
        other = []
        for s in specs:
            (base if isinstance(s, str) else other).append(s)
        if other:
            if len(other) > 1 or base:
                for o in other:
                    if o[0] != 'td':
                        self.tag_type(o)
                raise Reject('bad specifier combination')
            o = other[0]
            if o[0] == 'td':
                e = self.lookup(o[1])
                if e is None or e[0] != 'td':
                    raise Unsup('typedef scope')
                return e[1]
            return self.tag_type(o)
        c = {k: base.count(k) for k in set(base)}
        g = lambda k: c.get(k, 0)
        if g('int') > 1 or g('void') > 1 or g('char') > 1 or g('unsigned') > 1 or g('long') > 2:
            raise Reject('bad specifier combination')
        if g('void'):
            if len(base) > 1:
                raise Reject('bad specifier combination')
            return VOID
        if g('char'):
            if len(base) > 1:
                if len(base) == 2 and g('unsigned'):
                    raise Unsup('unsigned char')
                raise Reject('bad specifier combination')
            return CHAR
        return [[INT, LONG, LLONG], [UINT, ULONG, ULLONG]][g('unsigned')][g('long')]

    def tag_type(self, o):
        kind, name, body = o
        if kind == 'struct':
            if body is None:
                for s in reversed(self.tags):
                    if name in s:
                        if s[name][0] != 'struct':
                            raise Unsup('tag kind mismatch')
                        return s[name][1]
                st = mkstruct(name)
                self.tags[-1][name] = ('struct', st)
                return st
            st = None
            if name is not None and name in self.tags[-1]:
                k, st = self.tags[-1][name]
                if k != 'struct' or st.members is not None:
                    raise Reject('tag redeclared')
            if st is None:
                st = mkstruct(name)
                if name is not None:
                    self.tags[-1][name] = ('struct', st)
            ms = []
            seen = set()
            for specs, decls in body:
                bt = self.spec_type(specs)
                for d in decls:
                    nm, t = self.build(bt, d)
                    if nm in seen:
                        raise Reject('duplicate member')
                    seen.add(nm)
                    if t.kind == 'func':
                        raise Reject('function member')
                    if incomplete(t):
                        raise Reject('incomplete member')
                    ms.append((nm, t))
            if st.members is not None:
                raise Reject('defined within its own definition')
            complete_struct(st, ms)
            return st
        # enum
        if body is None:
            for s in reversed(self.tags):
                if name in s:
                    if s[name][0] != 'enum':
                        raise Unsup('tag kind mismatch')
                    return INT
            raise Unsup('forward enum')
        if name is not None and name in self.tags[-1]:
            k, st = self.tags[-1][name]
            if k == 'struct' and st.members is None:
                raise Unsup('tag kind mismatch')
            raise Reject('tag redeclared')
        if name is not None:
            self.tags[-1][name] = ('enum', INT)
        v = 0
        for nm, e in body:
            if e is not None:
                x = strip(e)
                if x[0] != 'int':
                    v = self.const_grey(e)
                elif not x[2].signed:
                    raise Unsup('enumerator value of an unsigned type')
                else:
                    v = x[1]
            if v > INT.hi:
                raise Reject('enumerator not representable as int')
            self.define(nm, ('const', v))
            v += 1
        return INT

    def const_grey(self, e):
        t, f, lv = self.rv(self.expr(e))
        raise Unsup('non-literal constant expression')

    def build(self, t, d, params_out=None):
        """apply declarator d to base type t; returns (name, type)"""
        k = d[0]
        if k == 'name':
            return d[1], t
        if k == 'group':
            return self.build(t, d[1], params_out)
        if k == 'ptr':
            return self.build(ptr(t), d[1], params_out)
        if k == 'arr':
            if t.kind == 'func':
                raise Reject('array of functions')
            if incomplete(t):
                raise Reject('array of incomplete type')
            e = strip(d[2])
            if e[0] != 'int' or e[2] is not INT:
                # any integer constant expression is valid C; only plain int literals are promised
                ty = self.rv(self.expr(d[2]))[0]
                if not is_int(ty):
                    raise Reject('array size not integer')
                raise Unsup('array size not an int literal')
            if e[1] <= 0:
                raise Reject('array size must be positive')
            if e[1] * max(1, t.size) > 1 << 24:
                raise Unsup('huge array')
            return self.build(arr(t, e[1]), d[1], params_out)
        if k == 'fn':
            if t.kind == 'arr':
                raise Reject('function returning array')
            if t.kind == 'func':
                raise Reject('function returning function')
            if t.kind == 'struct':
                # struct values are not passed around by value in this subset
                if incomplete(t):
                    raise Reject('function returning incomplete type')
                raise Unsup('function returning struct')
            ps = []
            names = []
            self.tags.append({})
            self.scopes.append({})
            try:
                for i, (specs, pd) in enumerate(d[2]):
                    for s in specs:
                        if not isinstance(s, str) and s[0] in ('struct', 'enum') and s[2] is not None:
                            raise Unsup('tag declared in parameter list')
                    bt = self.spec_type(specs)
                    nm, pt = self.build(bt, pd)
                    if pt.kind == 'void' and nm is None and len(d[2]) == 1 and pd == ('name', None):
                        break
                    if pt.kind == 'arr':
                        pt = ptr(pt.sub)
                    elif pt.kind == 'func':
                        pt = ptr(pt)
                    if incomplete(pt):
                        raise Reject('parameter has incomplete type')
                    if pt.kind == 'struct':
                        raise Unsup('struct parameter')
                    if nm is not None and nm in names:
                        raise Reject('duplicate parameter')
                    ps.append(pt)
                    names.append(nm)
                if self.tags[-1]:
                    raise Unsup('tag declared in parameter list')
            finally:
                self.tags.pop()
                self.scopes.pop()
            # only the innermost function declarator's parameter names matter
            if params_out is not None:
                params_out[:] = [names]
            return self.build(func(t, ps), d[1], params_out)
        raise AssertionError(k)

    def type_of_name(self, tn):
        specs, d = tn
        bt = self.spec_type(specs)
        return self.build(bt, d)[1]

    # ---------------- top level
    def top(self, it):
        if it[0] == 'decl':
            self.declare(it, True)
            return
        _, specs, d, body = it
        bt = self.spec_type(specs)
        po = []
        name, ty = self.build(bt, d, po)
        if ty.kind != 'func':
            raise Reject('non-function with body')
        if any(n is None for n in po[0]):
            raise Reject('unnamed parameter in definition')
        if name in self.scopes[0]:
            e = self.scopes[0][name]
            if e[0] == 'fn' and e[1].run is None and same(e[1].ty, ty):
                raise Unsup('definition after declaration')
            raise Reject('redeclared ' + name)
        f = Func(name, ty)
        self.m.objs.append(f)
        self.define(name, ('fn', f, (len(self.m.objs) - 1) << 32))
        self.funcs[name] = f
        self.cur = ty
        self.nslots = 0
        self.scopes.append({})
        self.tags.append({})
        slots = []
        for n, t in zip(po[0], ty.params):
            s = self.slot()
            slots.append((s, t, self.mk_store(t)))
            self.define(n, ('var', t, s))
        self.brk = self.cnt = 0
        self.switches = []
        self.labs = []
        self.nsw = 0
        code = self.block(body[1], scope=False)
        self.scopes.pop()
        self.tags.pop()
        nslots = self.nslots
        m = self.m
        objs = m.objs

        def run(args):
            m.depth += 1
            if m.depth > 60:
                raise UB('recursion depth')
            fr = [0] * nslots
            base = len(objs)
            for (s, t, st), v in zip(slots, args):
                objs.append(Obj(t.size))
                fr[s] = p = (len(objs) - 1) << 32
                st(p, v)
            m.retval = None
            r = code(fr)
            v = m.retval if r == RET else None
            m.retval = None
            # objects of this call die: dangling uses become UB
            for k in range(base, len(objs)):
                objs[k] = None
            m.depth -= 1
            return v
        f.run = run

    def slot(self):
        s = self.nslots
        self.nslots += 1
        return s

    # ---------------- declarations
    def declare(self, it, toplevel):
        _, td, specs, ds = it
        bt = self.spec_type(specs)
        inits = []
        if not ds:
            if td:
                raise Unsup('typedef without declarator')
            if isinstance(specs[0], str) or specs[0][0] == 'td' or (specs[0][1] is None and specs[0][0] != 'enum'):
                raise Unsup('declaration declares nothing')
            return None
        for d, init in ds:
            name, ty = self.build(bt, d)
            if td:
                if init is not None:
                    raise Reject('typedef initialised')
                if name in self.scopes[-1]:
                    raise Reject('redeclared ' + name)
                if incomplete(ty):
                    self.define(name, ('td', ty))
                    self.greytd = True
                    raise Unsup('typedef of incomplete type')
                self.define(name, ('td', ty))
                continue
            if ty.kind == 'func':
                if init is not None:
                    raise Reject('function initialised')
                if name in self.scopes[-1]:
                    e = self.scopes[-1][name]
                    if e[0] == 'fn' and same(e[1].ty, ty):
                        raise Unsup('function redeclared compatibly')
                    raise Reject('redeclared ' + name)
                if not toplevel:
                    f = self.funcs.get(name)
                    if f is None and name not in self.externs:
                        raise Unsup('block-scope function declaration')
                f = self.funcs.get(name)
                if f is None:
                    f = Func(name, ty)
                    if name in self.externs:
                        f.run = self.mk_extern(name, ty)
                    self.m.objs.append(f)
                    self.funcs[name] = f
                    p = (len(self.m.objs) - 1) << 32
                else:
                    p = self.m.objs.index(f) << 32
                self.define(name, ('fn', f, p))
                continue
            if incomplete(ty):
                raise Reject('incomplete object ' + name)
            if name in self.scopes[-1]:
                if toplevel and init is None:
                    e = self.scopes[-1][name]
                    if e[0] == 'gvar' and same(e[1], ty):
                        raise Unsup('tentative redefinition')
                raise Reject('redeclared ' + name)
            if toplevel:
                p = self.new_obj(ty.size, True, name)
                self.define(name, ('gvar', ty, p))
                self.globals.append((name, ty, p))
                if init is not None:
                    self.global_init(ty, init, p)
            else:
                s = self.slot()
                self.define(name, ('var', ty, s))
                inits.append(self.local_init(ty, init, s))
        return inits

    def mk_extern(self, name, ty):
        fn = self.externs[name]
        m = self.m

        def run(args):
            m.steps += 1
            v = fn(self, args)
            t = ty.sub
            if t.kind == 'void':
                return None
            return wrap(t, v) if is_int(t) else v
        return run

    def flatten(self, ty, init):
        """yield (offset, type, exprnode or bytes) for a braced/unbraced initialiser; C rules restricted to
        fully braced aggregates"""
        out = []
        self._flat(ty, init, 0, out)
        return out

    def _flat(self, ty, init, off, out):
        if is_scalar(ty):
            if init[0] == 'list':
                if len(init[1]) != 1:
                    raise Reject('too many initialisers for scalar')
                if init[1][0][0] == 'list':
                    raise Unsup('nested braces on scalar')
                init = init[1][0]
            out.append((off, ty, init))
            return
        if ty.kind == 'arr':
            if ty.sub is CHAR:
                s = None
                if strip(init)[0] == 'str':
                    s = strip(init)[1]
                    if init[0] == 'paren':
                        raise Unsup('parenthesised string initialiser')
                elif init[0] == 'list' and strip(init[1][0])[0] == 'str':
                    if len(init[1]) > 1:
                        raise Reject('too many initialisers')
                    s = strip(init[1][0])[1]
                    if init[1][0][0] == 'paren':
                        raise Unsup('parenthesised string initialiser')
                if s is not None:
                    if len(s) - 1 > ty.n:
                        raise Reject('string too long')
                    for k in range(ty.n):
                        out.append((off + k, CHAR, ('int', wrap(CHAR, s[k]) if k < len(s) else 0, INT, 'int')))
                    return
            if init[0] != 'list':
                raise Reject('array needs braces')
        elif init[0] != 'list':
            raise Unsup('struct initialised from expression')
        if self._flat_items(ty, init[1], 0, off, out) < len(init[1]):
            raise Reject('too many initialisers')

    def _flat_items(self, ty, items, i, off, out):
        """initialise the aggregate from items[i:], entering sub-aggregates without braces as in C; returns the next item"""
        parts = [(off + k * ty.sub.size, ty.sub) for k in range(ty.n)] if ty.kind == 'arr' else [(off + mo, mt) for nm, mo, mt in ty.n]
        for o, t in parts:
            if i >= len(items):
                self._zero(t, o, out)
                continue
            x = items[i]
            if x[0] == 'list' or is_scalar(t) or (t.kind == 'arr' and t.sub is CHAR and strip(x)[0] == 'str'):
                self._flat(t, x, o, out)
                i += 1
            else:
                if t.kind == 'struct' and self.expr(x)[0].kind == 'struct':
                    raise Unsup('struct initialised from expression')
                i = self._flat_items(t, items, i, o, out)
        return i

    def _zero(self, ty, off, out):
        if is_scalar(ty):
            out.append((off, ty, None))
        elif ty.kind == 'arr':
            for k in range(ty.n):
                self._zero(ty.sub, off + k * ty.sub.size, out)
        else:
            for nm, mo, mt in ty.n:
                self._zero(mt, off + mo, out)

    def global_init(self, ty, init, p):
        for off, t, e in self.flatten(ty, init):
            if e is None:
                continue
            x = strip(e)
            te = self.expr(e)
            ct, cf, _ = self.rv(te)
            self.check_assign(t, ct, e)
            if x[0] != 'int':
                if not self.const_only(x):
                    raise Unsup('global initialiser is not a literal')
                self.soft = 'global initialiser is not a literal'
                if not is_int(ct) or not is_int(t):
                    raise Unsup('global initialiser is not an integer')
            try:
                v = self.conv(ct, t, cf)(None)
            except UB:
                raise Unsup('undefined constant expression')
            self.mk_store(t)(p + off, v)

    def const_only(self, e):
        k = e[0]
        if k == 'int' or k in ('sizeoft', 'sizeofe'):
            return True
        if k == 'id':
            d = self.lookup(e[1])
            return d is not None and d[0] == 'const'
        if k == 'paren':
            return self.const_only(e[1])
        if k == 'cast':
            return self.const_only(e[2])
        if k == 'un':
            return e[1] in '+-~!' and self.const_only(e[2])
        if k == 'bin':
            return self.const_only(e[2]) and self.const_only(e[3])
        if k == 'cond':
            return all(self.const_only(x) for x in e[1:4])
        return False

    def local_init(self, ty, init, s):
        m = self.m
        objs = m.objs
        size = ty.size
        if init is None:
            def run0(fr):
                objs.append(Obj(size))
                fr[s] = (len(objs) - 1) << 32
            return run0
        items = []
        for off, t, e in self.flatten(ty, init):
            if e is None:
                items.append((off, self.mk_store(t), lambda fr: 0))
                continue
            ct, cf, _ = self.rv(self.expr(e))
            self.check_assign(t, ct, e)
            items.append((off, self.mk_store(t), self.conv(ct, t, cf)))

        def run(fr):
            objs.append(Obj(size))
            fr[s] = p = (len(objs) - 1) << 32
            for off, st, f in items:
                st(p + off, f(fr))
        return run

    def is_null_const(self, e):
        x = strip(e)
        if x[0] == 'cast':
            return False
        return x[0] == 'int' and x[1] == 0 and x[3] == 'int'

    def check_assign(self, t, ct, e):
        """simple assignment constraints (6.5.16.1)"""
        if is_int(t) and is_int(ct):
            return
        if t.kind == 'struct' and ct is t:
            raise Unsup('struct assignment')
        if t.kind == 'ptr' and ct.kind == 'ptr':
            a, b = t.sub, ct.sub
            if same(a, b):
                return
            if a.kind == 'void' or b.kind == 'void':
                o = b if a.kind == 'void' else a
                if o.kind == 'func':
                    raise Unsup('void* <-> function pointer')
                return
            raise Reject('incompatible pointers')
        if t.kind == 'ptr' and is_int(ct):
            if e is not None and self.is_null_const(e):
                raise Unsup('null pointer constant')
            raise Reject('pointer from integer')
        raise Reject('not assignable: %s <- %s' % (t, ct))

    # ---------------- expressions.  Each returns (type, valuefn, addrfn or None)
    def expr(self, e):
        return getattr(self, 'e_' + e[0])(e)

    def rv(self, x):
        """array / function decay"""
        t, f, a = x
        if t.kind == 'arr':
            if a is None:
                raise Unsup('array rvalue')
            return ptr(t.sub), a, None
        if t.kind == 'func':
            return ptr(t), a, None
        return t, f, None

    def conv(self, a, b, f):
        """convert value of type a to b"""
        if b.kind == 'void' or a is b:
            return f
        if is_int(a) and is_int(b):
            if b.lo <= a.lo and a.hi <= b.hi:
                return f
            mask, half, signed = b.mask, b.half, b.signed
            if signed:
                def cv(fr):
                    v = f(fr) & mask
                    return v - mask - 1 if v >= half else v
            else:
                def cv(fr):
                    return f(fr) & mask
            return cv
        if a.kind == 'ptr' and b.kind == 'ptr':
            return f
        if a.kind == 'ptr' and is_int(b):
            def cp(fr):
                v = f(fr)
                if v == 0:
                    return 0
                raise UB('address observed')
            return cp
        if is_int(a) and b.kind == 'ptr':
            def ci(fr):
                v = f(fr)
                if v == 0:
                    return 0
                raise UB('int to pointer')
            return ci
        raise Reject('conversion')

    def e_paren(self, e):
        return self.expr(e[1])

    def e_int(self, e):
        v = e[1]
        return e[2], (lambda fr: v), None

    def e_str(self, e):
        b = e[1]
        p = self.new_obj(len(b), True)
        self.m.objs[p >> 32].data[:] = b
        return arr(CHAR, len(b)), None, (lambda fr: p)

    def e_id(self, e):
        ent = self.lookup(e[1])
        if ent is None:
            raise Reject('undeclared ' + e[1])
        k = ent[0]
        if k == 'const':
            v = ent[1]
            return INT, (lambda fr: v), None
        if k == 'td':
            raise Reject('typedef name as expression')
        if k == 'fn':
            p = ent[2]
            return ent[1].ty, None, (lambda fr: p)
        if k == 'gvar':
            t, p = ent[1], ent[2]
            af = lambda fr: p
        else:
            t, s = ent[1], ent[2]

            def af(fr):
                return fr[s]
        return t, self.mk_load(t, af) if is_scalar(t) else None, af

    def seq2(self, f, g):
        """evaluate two unsequenced operands"""
        if self.rtl:
            def h(fr):
                b = g(fr)
                return f(fr), b
        else:
            def h(fr):
                a = f(fr)
                return a, g(fr)
        return h

    def e_bin(self, e):
        op = e[1]
        if op in ('&&', '||'):
            return self.logic(e)
        a = self.rv(self.expr(e[2]))
        b = self.rv(self.expr(e[3]))
        return self.binop(op, a, b, e[2], e[3])

    def binop(self, op, a, b, ea=None, eb=None):
        ta, fa, _ = a
        tb, fb, _ = b
        m = self.m
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if is_int(ta) and is_int(tb):
                t = usual(ta, tb)
                h = self.seq2(self.conv(ta, t, fa), self.conv(tb, t, fb))
                return INT, CMP[op](h), None
            if ta.kind == 'ptr' and tb.kind == 'ptr':
                eq = op in ('==', '!=')
                if not same(ta.sub, tb.sub):
                    if eq and (ta.sub.kind == 'void' or tb.sub.kind == 'void'):
                        raise Unsup('object pointer == void*')
                    elif not eq and 'void' in (ta.sub.kind, tb.sub.kind):
                        raise Unsup('relational void* with object pointer')
                    else:
                        raise Reject('incompatible pointers compared')
                elif not eq and ta.sub.kind == 'func':
                    raise Unsup('relational on function pointers')
                elif not eq and ta.sub.kind == 'void':
                    raise Unsup('relational void*')
                h = self.seq2(fa, fb)
                if eq:
                    neg = op == '!='

                    def pe(fr):
                        x, y = h(fr)
                        return int((x == y) != neg)
                    return INT, pe, None
                cmpf = {'<': lambda x, y: x < y, '>': lambda x, y: x > y, '<=': lambda x, y: x <= y,
                        '>=': lambda x, y: x >= y}[op]

                def pr(fr):
                    x, y = h(fr)
                    if x >> 32 != y >> 32:
                        raise UB('compare different objects')
                    return int(cmpf(x, y))
                return INT, pr, None
            if (ta.kind == 'ptr' and is_int(tb)) or (tb.kind == 'ptr' and is_int(ta)):
                ie = eb if ta.kind == 'ptr' else ea
                if op in ('==', '!=') and ie is not None and self.is_null_const(ie):
                    raise Unsup('null pointer constant')
                raise Reject('compare pointer with integer')
            raise Reject('bad comparison operands')
        if op in ('+', '-'):
            if ta.kind == 'ptr' or tb.kind == 'ptr':
                return self.ptr_arith(op, a, b)
        if op in ('<<', '>>'):
            if not (is_int(ta) and is_int(tb)):
                raise Reject('bad shift operands')
            t = promote(ta)
            h = self.seq2(self.conv(ta, t, fa), fb)
            bits = 8 * t.size
            if op == '<<':
                lo, hi, mask, signed = t.lo, t.hi, t.mask, t.signed

                def shl(fr):
                    x, y = h(fr)
                    if y < 0 or y >= bits:
                        raise UB('shift count')
                    if signed:
                        v = x << y
                        if x < 0 or v > hi:
                            raise UB('shift overflow')
                        return v
                    return (x << y) & mask
                return t, shl, None

            def shr(fr):
                x, y = h(fr)
                if y < 0 or y >= bits:
                    raise UB('shift count')
                return x >> y
            return t, shr, None
        if not (is_int(ta) and is_int(tb)):
            raise Reject('bad operands of ' + op)
        t = usual(ta, tb)
        h = self.seq2(self.conv(ta, t, fa), self.conv(tb, t, fb))
        return t, self.arith(op, t, h), None

    def arith(self, op, t, h):
        lo, hi, mask, signed = t.lo, t.hi, t.mask, t.signed
        if op == '+':
            def f(fr):
                x, y = h(fr)
                v = x + y
                if signed:
                    if v < lo or v > hi:
                        raise UB('overflow')
                    return v
                return v & mask
        elif op == '-':
            def f(fr):
                x, y = h(fr)
                v = x - y
                if signed:
                    if v < lo or v > hi:
                        raise UB('overflow')
                    return v
                return v & mask
        elif op == '*':
            def f(fr):
                x, y = h(fr)
                v = x * y
                if signed:
                    if v < lo or v > hi:
                        raise UB('overflow')
                    return v
                return v & mask
        elif op == '/':
            def f(fr):
                x, y = h(fr)
                if y == 0:
                    raise UB('div0')
                v = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    v = -v
                if v > hi:
                    raise UB('overflow')
                return v
        elif op == '%':
            def f(fr):
                x, y = h(fr)
                if y == 0:
                    raise UB('div0')
                if signed and y == -1 and x == lo:
                    raise UB('overflow')
                v = abs(x) % abs(y)
                return -v if x < 0 else v
        elif op == '&':
            def f(fr):
                x, y = h(fr)
                return x & y
        elif op == '|':
            def f(fr):
                x, y = h(fr)
                return x | y
        elif op == '^':
            def f(fr):
                x, y = h(fr)
                return x ^ y
        else:
            raise AssertionError(op)
        return f

    def ptr_arith(self, op, a, b):
        ta, fa, _ = a
        tb, fb, _ = b
        if op == '+' and is_int(ta):
            ta, fa, tb, fb = tb, fb, ta, fa
            swap = True
        else:
            swap = False
        if ta.kind == 'ptr' and is_int(tb):
            if ta.sub.kind in ('func', 'void'):
                raise Unsup('arithmetic on void*/function pointer')
            if incomplete(ta.sub):
                raise Unsup('arithmetic on pointer to incomplete type')
            if op == '-' and swap:
                raise Reject('int - ptr')
            size = ta.sub.size
            objs = self.m.objs
            sgn = 1 if op == '+' else -1
            h = self.seq2(fb, fa) if swap else self.seq2(fa, fb)

            def f(fr):
                p, i = h(fr)
                if swap:
                    p, i = i, p
                off = (p & 0xffffffff) + sgn * i * size
                if p == 0:
                    raise UB('null arithmetic')
                o = objs[p >> 32]
                if o.__class__ is not Obj or off < 0 or off > o.size:
                    raise UB('pointer arithmetic out of bounds')
                return (p >> 32 << 32) + off
            return ta, f, None
        if op == '-' and ta.kind == 'ptr' and tb.kind == 'ptr':
            if not same(ta.sub, tb.sub):
                raise Reject('ptr - ptr incompatible')
            if ta.sub.kind in ('func', 'void') or incomplete(ta.sub):
                raise Unsup('difference of void*/function pointers')
            size = ta.sub.size
            h = self.seq2(fa, fb)

            def g(fr):
                p, q = h(fr)
                if p >> 32 != q >> 32 or p == 0 or q == 0:
                    raise UB('ptr diff')
                d = p - q
                if d % size:
                    raise UB('misaligned ptr diff')
                return d // size
            return LONG, g, None
        raise Reject('bad operands of ' + op)

    def logic(self, e):
        ta, fa, _ = self.rv(self.expr(e[2]))
        tb, fb, _ = self.rv(self.expr(e[3]))
        if not (is_scalar(ta) and is_scalar(tb)):
            raise Reject('bad operands of ' + e[1])
        if e[1] == '&&':
            return INT, (lambda fr: 1 if fa(fr) != 0 and fb(fr) != 0 else 0), None
        return INT, (lambda fr: 1 if fa(fr) != 0 or fb(fr) != 0 else 0), None

    def e_cond(self, e):
        tc, fc, _ = self.rv(self.expr(e[1]))
        ta, fa, _ = self.rv(self.expr(e[2]))
        tb, fb, _ = self.rv(self.expr(e[3]))
        if not is_scalar(tc):
            raise Reject('condition not scalar')
        if is_int(ta) and is_int(tb):
            t = usual(ta, tb)
            fa = self.conv(ta, t, fa)
            fb = self.conv(tb, t, fb)
        elif ta.kind == 'void' and tb.kind == 'void':
            raise Unsup("void conditional")
        elif ta.kind == 'ptr' and tb.kind == 'ptr':
            if same(ta.sub, tb.sub):
                t = ta
            elif ta.sub.kind == 'void' or tb.sub.kind == 'void':
                raise Unsup('cond: object pointer and void*')
            else:
                raise Reject('cond: incompatible pointers')
        elif ta.kind == 'struct' and ta is tb:
            raise Unsup('struct conditional')
        elif (ta.kind == 'ptr' and is_int(tb) and self.is_null_const(e[3])) or (
                tb.kind == 'ptr' and is_int(ta) and self.is_null_const(e[2])):
            raise Unsup('null pointer constant')
        else:
            raise Reject('cond operands')
        return t, (lambda fr: fa(fr) if fc(fr) != 0 else fb(fr)), None

    def e_cast(self, e):
        t = self.type_of_name(e[1])
        x = self.rv(self.expr(e[2]))
        if t.kind == 'void':
            return VOID, (x[1] if x[1] is not None else (lambda fr: None)), None
        if not is_scalar(t) or not is_scalar(x[0]):
            raise Reject('cast needs scalar types')
        return t, self.conv(x[0], t, x[1]), None

    def e_un(self, e):
        op = e[1]
        if op == '&':
            x = self.expr(e[2])
            if x[0].kind == 'func':
                return ptr(x[0]), x[2], None
            if x[2] is None:
                if x[0].kind == 'void':
                    raise Unsup('& of void')
                raise Reject('& of non-lvalue')
            if strip(e[2])[0] == 'str':
                raise Unsup('address of string literal')
            if x[0].kind == 'void':
                raise Unsup('& of void lvalue')
            return ptr(x[0]), x[2], None
        x = self.rv(self.expr(e[2]))
        t, f, _ = x
        if op == '*':
            if t.kind != 'ptr':
                raise Reject('* of non-pointer')
            return self.lval(t.sub, f)
        if op == '!':
            if not is_scalar(t):
                raise Reject('! of non-scalar')
            return INT, (lambda fr: 0 if f(fr) != 0 else 1), None
        if not is_int(t):
            raise Reject('unary %s of non-arithmetic' % op)
        pt = promote(t)
        if op == '+':
            return pt, f, None
        if op == '-':
            lo, mask, signed = pt.lo, pt.mask, pt.signed

            def neg(fr):
                v = f(fr)
                if signed:
                    if v == lo:
                        raise UB('overflow')
                    return -v
                return -v & mask
            return pt, neg, None
        if op == '~':
            if pt.signed:
                return pt, (lambda fr: ~f(fr)), None
            mask = pt.mask
            return pt, (lambda fr: ~f(fr) & mask), None
        raise AssertionError

    def lval(self, t, af):
        if t.kind == 'func':
            return t, None, af
        if t.kind == 'void':
            objs = self.m.objs
            return t, (lambda fr: af(fr)), None
        return t, self.mk_load(t, af) if is_scalar(t) else None, af

    def e_sizeoft(self, e):
        t = self.type_of_name(e[1])
        return self.szof(t)

    def szof(self, t):
        if t.kind == 'func' or incomplete(t):
            raise Reject('sizeof incomplete/function')
        v = t.size
        return ULONG, (lambda fr: v), None

    def e_sizeofe(self, e):
        x = self.expr(e[1])
        if strip(e[1])[0] == 'str':
            pass
        return self.szof(x[0])

    def e_idx(self, e):
        a = self.rv(self.expr(e[1]))
        b = self.rv(self.expr(e[2]))
        if not ((a[0].kind == 'ptr' and is_int(b[0])) or (b[0].kind == 'ptr' and is_int(a[0]))):
            raise Reject('bad subscript')
        p = a[0] if a[0].kind == 'ptr' else b[0]
        if p.sub.kind == 'func' or incomplete(p.sub):
            raise Reject('subscript of pointer to function/incomplete')
        t, f, _ = self.ptr_arith('+', a, b)
        return self.lval(t.sub, f)

    def e_mem(self, e):
        x = self.expr(e[2])
        if e[1] == '->':
            t, f, _ = self.rv(x)
            if t.kind != 'ptr' or t.sub.kind != 'struct':
                raise Reject('-> on non struct pointer')
            st = t.sub
            base = f
        else:
            st = x[0]
            base = x[2]
            if st.kind != 'struct':
                raise Reject('. on non struct')
            if base is None:
                raise Unsup('member of struct rvalue')
        if st.members is None:
            raise Reject('member of incomplete struct')
        if e[3] not in st.members:
            raise Reject('no such member')
        off, mt = st.members[e[3]]
        objs = self.m.objs

        def af(fr):
            p = base(fr)
            if p == 0:
                raise UB('null member')
            return p + off
        return self.lval(mt, af)

    def e_call(self, e):
        x = self.rv(self.expr(e[1]))
        if x[0].kind != 'ptr' or x[0].sub.kind != 'func':
            raise Reject('called object not a function')
        ft = x[0].sub
        ff = x[1]
        if len(ft.params) != len(e[2]):
            raise Reject('argument count')
        args = []
        for pt, ae in zip(ft.params, e[2]):
            at, af, _ = self.rv(self.expr(ae))
            self.check_assign(pt, at, ae)
            args.append(self.conv(at, pt, af))
        m = self.m
        objs = m.objs
        rtl = self.rtl
        isvoid = ft.sub.kind == 'void'

        def call(fr):
            m.steps += 1
            if m.steps > m.limit:
                raise StepLimit()
            if rtl:
                vals = [a(fr) for a in reversed(args)][::-1]
                p = ff(fr)
            else:
                p = ff(fr)
                vals = [a(fr) for a in args]
            fo = objs[p >> 32] if p >> 32 < len(objs) else None
            if fo.__class__ is not Func or fo.run is None:
                raise UB('bad call')
            r = fo.run(vals)
            if r is None and not isvoid:
                # using the value of a function that returned none is UB; so treat any such call
                raise UB('missing return value')
            return r
        return ft.sub, call, None

    def modifiable(self, x):
        t, f, a = x
        if a is None or t.kind in ('arr', 'func') or incomplete(t):
            raise Reject('not a modifiable lvalue')

    def e_assign(self, e):
        op = e[1]
        x = self.expr(e[2])
        y = self.rv(self.expr(e[3]))
        self.modifiable(x)
        t, f, a = x
        if op == '=':
            self.check_assign(t, y[0], e[3])
            g = self.conv(y[0], t, y[1])
            st = self.mk_store(t)
            h = self.seq2(a, g)

            def asg(fr):
                p, v = h(fr)
                st(p, v)
                return v
            return t, asg, None
        bop = op[:-1]
        if t.kind == 'ptr':
            if bop not in '+-' or not is_int(y[0]):
                raise Reject('bad compound assignment')
        elif not (is_int(t) and is_int(y[0])):
            raise Reject('bad compound assignment')
        # evaluate the lvalue once
        cell = [0]
        ld = self.mk_load(t, lambda fr: cell[-1])
        r = [0]
        tt, rf, _ = self.binop(bop, (t, ld, None), (y[0], lambda fr: r[-1], None))
        rf = self.conv(tt, t, rf)
        st = self.mk_store(t)
        h = self.seq2(a, y[1])

        def casg(fr):
            p, v = h(fr)
            cell.append(p)
            r.append(v)
            try:
                v = rf(fr)
            finally:
                cell.pop()
                r.pop()
            st(p, v)
            return v
        return t, casg, None

    def incdec(self, op, xe, post):
        x = self.expr(xe)
        self.modifiable(x)
        t, f, a = x
        if not is_scalar(t):
            raise Reject('++/-- operand')
        cell = [0]
        ld = self.mk_load(t, lambda fr: cell[-1])
        tt, rf, _ = self.binop(op[0], (t, ld, None), (INT, lambda fr: 1, None))
        rf = self.conv(tt, t, rf)
        st = self.mk_store(t)

        def run(fr):
            p = a(fr)
            cell.append(p)
            try:
                old = ld(fr)
                v = rf(fr)
            finally:
                cell.pop()
            st(p, v)
            return old if post else v
        return t, run, None

    def e_preinc(self, e):
        return self.incdec(e[1], e[2], False)

    def e_postinc(self, e):
        return self.incdec(e[1], e[2], True)

    # ---------------- statements
    def block(self, items, scope=True):
        if scope:
            self.scopes.append({})
            self.tags.append({})
        code = []
        enter = {}      # label -> (index of the statement that contains it, storage declared before it)
        decls = []
        for it in items:
            if it[0] == 'decl':
                names = it[3]
                r = self.declare(it, False)
                for f in r or []:
                    code.append(f)
                if self.switches:
                    # storage exists even if the declaration is jumped over
                    for d, init in names:
                        ent = self.scopes[-1].get(decl_name(d))
                        if ent and ent[0] == 'var':
                            decls.append((ent[2], ent[1].size))
            else:
                f = self.stmt(it)
                for l in getattr(f, 'labels', ()):
                    enter[l] = (len(code), len(decls))
                code.append(f)
        if scope:
            self.scopes.pop()
            self.tags.pop()
        m = self.m
        if not enter:
            def run(fr):
                for c in code:
                    r = c(fr)
                    if r:
                        return r
                return None
            return run
        objs = m.objs

        def jump(fr):
            i = 0
            if m.seek is not None:
                i, nd = enter[m.seek]
                for sl, size in decls[:nd]:
                    objs.append(Obj(size))
                    fr[sl] = (len(objs) - 1) << 32
            for k in range(i, len(code)):
                r = code[k](fr)
                if r:
                    return r
            return None
        return jump

    def expr_stmt(self, e):
        t, f, a = self.expr(e)
        if f is None:
            f = a if a is not None else (lambda fr: None)
        return f

    def cond_fn(self, e):
        t, f, _ = self.rv(self.expr(e))
        if not is_scalar(t):
            raise Reject('condition not scalar')
        return f

    def stmt(self, s):
        """a closure; its attribute labels holds the labels of the innermost switch that lie in it: it is run with m.seek set
        to one of them when the switch jumps there"""
        n = len(self.labs)
        f = self.stmt0(s)
        if len(self.labs) > n:
            f.labels = frozenset(self.labs[n:])
        return f

    def stmt0(self, s):
        k = s[0]
        m = self.m
        if k == 'block':
            return self.block(s[1])
        if k == 'null':
            return lambda fr: None
        if k == 'expr':
            f = self.expr_stmt(s[1])

            def ex(fr):
                m.steps += 1
                if m.steps > m.limit:
                    raise StepLimit()
                f(fr)
            return ex
        if k == 'if':
            c = self.cond_fn(s[1])
            a = self.stmt(s[2])
            b = self.stmt(s[3]) if s[3] is not None else (lambda fr: None)
            if hasattr(a, 'labels') or hasattr(b, 'labels'):
                al = getattr(a, 'labels', ())

                def ifj(fr):
                    m.steps += 1
                    if m.seek is not None:
                        return a(fr) if m.seek in al else b(fr)
                    return a(fr) if c(fr) != 0 else b(fr)
                return ifj

            def iff(fr):
                m.steps += 1
                return a(fr) if c(fr) != 0 else b(fr)
            return iff
        if k == 'while':
            c = self.cond_fn(s[1])
            self.brk += 1
            self.cnt += 1
            b = self.stmt(s[2])
            self.brk -= 1
            self.cnt -= 1

            def wh(fr):
                while m.seek is not None or c(fr) != 0:
                    m.steps += 1
                    if m.steps > m.limit:
                        raise StepLimit()
                    r = b(fr)
                    if r == BRK:
                        break
                    if r == RET:
                        return r
                return None
            return wh
        if k == 'for':
            self.scopes.append({})
            self.tags.append({})
            init = []
            if s[1] is not None:
                if s[1][0] == 'decl':
                    init = self.declare(s[1], False) or []
                else:
                    init = [self.expr_stmt(s[1][1])]
            c = self.cond_fn(s[2]) if s[2] is not None else (lambda fr: 1)
            st = self.expr_stmt(s[3]) if s[3] is not None else (lambda fr: None)
            self.brk += 1
            self.cnt += 1
            b = self.stmt(s[4])
            self.brk -= 1
            self.cnt -= 1
            decls = []
            if s[1] is not None and s[1][0] == 'decl' and hasattr(b, 'labels'):
                for d, _ in s[1][3]:
                    ent = self.scopes[-1].get(decl_name(d))
                    if ent and ent[0] == 'var':
                        decls.append((ent[2], ent[1].size))
            self.scopes.pop()
            self.tags.pop()

            def fo(fr):
                if m.seek is not None:
                    for sl, size in decls:
                        m.objs.append(Obj(size))
                        fr[sl] = (len(m.objs) - 1) << 32
                else:
                    for i in init:
                        i(fr)
                while m.seek is not None or c(fr) != 0:
                    m.steps += 1
                    if m.steps > m.limit:
                        raise StepLimit()
                    r = b(fr)
                    if r == BRK:
                        break
                    if r == RET:
                        return r
                    st(fr)
                return None
            return fo
        if k == 'switch':
            return self.switch(s)
        if k == 'case' or k == 'default':
            if not self.switches:
                raise Reject(k + ' outside switch')
            sw = self.switches[-1]
            if k == 'case':
                x = strip(s[1])
                v = None
                if x[0] == 'int':
                    if not x[2].signed:
                        raise Unsup('case label of unsigned type')
                    v = x[1]
                elif x[0] == 'id':
                    ent = self.lookup(x[1])
                    if ent is not None and ent[0] == 'const':
                        v = ent[1]
                if v is None:
                    t, f, _ = self.rv(self.expr(s[1]))
                    if not is_int(t):
                        raise Reject('case label not integer')
                    if x[0] in ('assign', 'call', 'preinc', 'postinc') or (x[0] == 'id'):
                        raise Reject('case label not constant')
                    raise Unsup('case label constant expression')
                if v in sw['cases'] or wrap(sw['type'], v) in sw['vals']:
                    raise Reject('duplicate case')
                sw['cases'][v] = None
                sw['vals'].add(wrap(sw['type'], v))
                key = (sw['id'], wrap(sw['type'], v))
                sub = s[2]
            else:
                if sw['default']:
                    raise Reject('duplicate default')
                sw['default'] = True
                key = (sw['id'], None)
                sub = s[1]
            self.labs.append(key)
            b = self.stmt(sub)

            def lab(fr):
                if m.seek == key:
                    m.seek = None
                return b(fr)
            return lab
        if k == 'break':
            if not self.brk:
                raise Reject('break outside')
            return lambda fr: BRK
        if k == 'continue':
            if not self.cnt:
                raise Reject('continue outside')
            return lambda fr: CNT
        if k == 'return':
            rt = self.cur.sub
            if s[1] is None:
                if rt.kind != 'void':
                    raise Reject('return without value')

                def r0(fr):
                    m.retval = 0
                    return RET
                return r0
            t, f, _ = self.rv(self.expr(s[1]))
            if rt.kind == 'void':
                if t.kind == 'void':
                    raise Unsup('return void expression')
                raise Reject('return with value in void function')
            self.check_assign(rt, t, s[1])
            g = self.conv(t, rt, f)

            def r1(fr):
                m.retval = g(fr)
                return RET
            return r1
        raise AssertionError(k)

    def switch(self, s):
        t, f, _ = self.rv(self.expr(s[1]))
        if not is_int(t):
            raise Reject('switch on non-integer')
        pt = promote(t)
        cf = self.conv(t, pt, f)
        self.nsw += 1
        sid = self.nsw
        self.switches.append(dict(cases={}, vals=set(), default=False, type=pt, id=sid))
        self.brk += 1
        n = len(self.labs)
        b = self.stmt(s[2])
        del self.labs[n:]
        self.brk -= 1
        self.switches.pop()
        labels = getattr(b, 'labels', ())
        dflt = (sid, None) if (sid, None) in labels else None
        m = self.m

        def run(fr):
            m.steps += 1
            key = (sid, cf(fr))
            if key not in labels:
                key = dflt
                if key is None:
                    return None
            m.seek = key
            r = b(fr)
            return None if r == BRK else r
        return run


CMP = {
    '==': lambda h: (lambda fr: int((lambda p: p[0] == p[1])(h(fr)))),
    '!=': lambda h: (lambda fr: int((lambda p: p[0] != p[1])(h(fr)))),
    '<': lambda h: (lambda fr: int((lambda p: p[0] < p[1])(h(fr)))),
    '>': lambda h: (lambda fr: int((lambda p: p[0] > p[1])(h(fr)))),
    '<=': lambda h: (lambda fr: int((lambda p: p[0] <= p[1])(h(fr)))),
    '>=': lambda h: (lambda fr: int((lambda p: p[0] >= p[1])(h(fr)))),
}


def strip(e):
    while e[0] == 'paren':
        e = e[1]
    return e


def verdict(src, externs=None):
    """'accept' | 'reject' | 'either' and the reason"""
    try:
        p = Program(src, externs)
    except Reject as x:
        return 'reject', str(x)
    except Unsup as x:
        return 'either', str(x)
    except RecursionError:
        return 'either', 'depth'
    if p.soft:
        return 'either', p.soft
    return 'accept', p
