"""Parsing: the structure of expressions, declarators, declaration specifiers and statements is the one of C's grammar."""
import itertools
from harness import *
from gen import *

# ---- precedence and associativity: no parentheses, all operator sequences, values that tell the groupings apart
BIN = BINOPS
VALS3 = [(7, 3, 2), (1, 2, 3), (-5, 4, 1), (0, 1, 0), (1, 0, 5), (12, 10, 6), (2, 2, 2), (0, 0, 1), (6, 1, 4)]
VALS4 = [v + (w,) for v in VALS3 for w in (1, 3)]


def part_prec(tier):
    for a, b in itertools.product(BIN, repeat=2):
        yield Unit('int f@(int a, int b, int c) { return a %s b %s c; }' % (a, b), VALS3, tag=a + ' ' + b)
        for u in ('-', '!', '~', '+'):
            yield Unit('int f@(int a, int b, int c) { return %sa %s b %s c; }' % (u, a, b), VALS3, tag=u + a + ' ' + b)
            yield Unit('int f@(int a, int b, int c) { return a %s %s b %s c; }' % (a, u, b), VALS3, tag=a + u + ' ' + b)
    ops3 = BIN if tier == 'thorough' else ['+', '*', '-', '<<', '<', '==', '&', '^', '|', '&&', '||', '%', '!=', '>=']
    for a, b, c in itertools.product(ops3, repeat=3):
        yield Unit('int f@(int a, int b, int c, int d) { return a %s b %s c %s d; }' % (a, b, c), VALS4, tag='%s %s %s' % (a, b, c))
    ASG = ['=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '&=', '^=', '|=']
    for a in ASG:
        for b in BIN:
            yield Unit('int f@(int a, int b, int c) { a %s b %s c; return a; }' % (a, b), VALS3, tag='asg')
            yield Unit('int f@(int a, int b, int c) { int r = a %s b %s c; return r; }' % (b, '+'), VALS3, tag='init')
        for b in ASG:
            yield Unit('int f@(int a, int b, int c) { a %s b %s c; return a * 10000 + b * 100 + c; }' % (a, b), VALS3, tag='asg asg')
        yield Unit('int f@(int a, int b, int c) { a %s b ? c : 9; return a; }' % a, VALS3, tag='asg cond')
        yield Unit('int f@(int a, int b, int c) { int r = b ? a %s c : 8; return r * 1000 + a; }' % a, VALS3, tag='cond asg')
        yield Unit('int f@(int a, int b, int c) { int v[3]; v[1] = a; v[a %s 1] = b; return v[1] * 1000 + a; }' % a, [(0, 1, 2), (1, 5, 5)], tag='sub asg')
    for a in BIN:
        yield Unit('int f@(int a, int b, int c) { return a %s b ? c : a; }' % a, VALS3, tag='?')
        yield Unit('int f@(int a, int b, int c) { return a ? b %s c : a %s b; }' % (a, a), VALS3, tag='?')
        yield Unit('int f@(int a, int b, int c) { return a ? b : c %s 3; }' % a, VALS3, tag='?')
        yield Unit('int f@(int a, int b, int c) { return a %s b ? c ? 4 : 5 : a ? 6 : 7; }' % a, VALS3, tag='?')
        yield Unit('int f@(int a, int b, int c) { return (char)a %s b; }' % a, [(300, 5, 1), (513, 2, 0), (7, 1, 1)], tag='cast')
        yield Unit('long f@(int a, int b, int c) { return (long)a %s b; }' % a, [(300, 5, 1), (513, 2, 0), (2147483647, 3, 1), (-3, 2, 0)], tag='cast')
        yield Unit('int f@(int a, int b, int c) { return sizeof a %s b; }' % a, VALS3, tag='sizeof')
        yield Unit('int f@(int a, int b, int c) { return sizeof(int) %s b; }' % a, VALS3, tag='sizeof')
        yield Unit('int f@(int a, int b, int c) { return sizeof(a) %s b; }' % a, VALS3, tag='sizeof')
        yield Unit('int f@(int a, int b, int c) { int *p = &a; return *p %s b; }' % a, VALS3, tag='deref')
        yield Unit('int f@(int a, int b, int c) { int *p = &a; return b %s*p; }' % a if a not in '/' else 'int f@(int a, int b, int c) { int *p = &a; return b / *p; }', VALS3, tag='deref')
        yield Unit('int f@(int a, int b, int c) { int r = a++ %s b; return r * 100 + a; }' % a, VALS3, tag='post')
        yield Unit('int f@(int a, int b, int c) { int r = b %s --a; return r * 100 + a; }' % a, VALS3, tag='pre')
        yield Unit('int g@(int x) { return x * 3; } int f@(int a, int b, int c) { return g@(a) %s g@(b %s c); }' % (a, a), VALS3, tag='call')
        yield Unit('int f@(int a, int b, int c) { int v[9]; int i; for (i = 0; i < 9; i++) v[i] = i * i; return v[2] %s v[3]; }' % a, VALS3[:1], tag='sub')
    # conditional chains
    for t in itertools.product(['a', 'b', '0', '1'], repeat=3):
        yield Unit('int f@(int a, int b) { return %s ? %s ? 1 : 2 : %s ? 3 : 4; }' % t, [(0, 0), (0, 1), (1, 0), (1, 1)], tag='?:')
        yield Unit('int f@(int a, int b) { return %s ? 1 : %s ? 2 : %s ? 3 : 4; }' % t, [(0, 0), (0, 1), (1, 0), (1, 1)], tag='?:')
        yield Unit('int f@(int a, int b) { return %s ? %s ? %s ? 1 : 2 : 3 : 4; }' % t, [(0, 0), (0, 1), (1, 0), (1, 1)], tag='?:')
    # prefix and postfix operators stacked
    pre = ['-', '+', '~', '!', '(char)', '(long)', '*&', '++', '--', 'sizeof ', '(unsigned int)', '&*&']
    for n in (1, 2, 3) if tier != 'thorough' else (1, 2, 3, 4):
        for t in itertools.product(pre, repeat=n):
            s = ' '.join(t)
            if t.count('sizeof ') > 1 or any(x == 'sizeof ' and y[0] == '(' for x, y in zip(t, t[1:])):      # the type of sizeof: P07
                continue
            yield Unit('long f@(int a) { long r = %s a; return r * 1000 + a; }' % s, [(5,), (-200,), (0,), (300,)], tag='prefix', maybe=True)
            if n < 3:
                for q in ['++', '--', '[0]', '.m', '->m', '(1)']:
                    yield Unit('struct S@ { int m; }; long f@(int a) { struct S@ x; x.m = a; struct S@ *x2 = &x; int v[2]; v[0] = a; long r = %s%s; return r * 1000 + x.m + v[0] + a; }'
                               % (s, {'++': 'a++', '--': 'a--', '[0]': 'v[0]', '.m': 'x.m', '->m': 'x2->m', '(1)': 'a'}[q]), [(5,), (-200,)], tag='prefix postfix', maybe=True)


# ---- all token sequences in expression position
ETOK = ['a', 'p', '1', '(', ')', '*', '-', '&', '++', '?', ':', '[', ']', '=', '!', 'sizeof', '(int)', '<']


def part_v_tokens(tier):
    n = 5 if tier == 'thorough' else 4
    for k in range(1, n + 1):
        for t in itertools.product(ETOK, repeat=k):
            yield 'int f(int a, int *p) { %s; return a; }' % ' '.join(t), 'expression'
    S = ['a', ';', '{', '}', 'if (a)', 'else', 'while (a)', 'for (;a;)', 'return', 'break', 'switch (a)', 'case 1:', 'default:', 'continue', 'int b', '1']
    for k in range(0, (5 if tier == 'thorough' else 4) + 1):
        for t in itertools.product(S, repeat=k):
            yield 'int f(int a) { %s return a; }' % ' '.join(t), 'statement'
    D = ['int', 'x', '*', '(', ')', '[2]', ';', ',', '=', '1', '{', '}', 'struct', 'enum', 'typedef', 'void', 'return x;']
    for k in range(0, (5 if tier == 'thorough' else 4) + 1):
        for t in itertools.product(D, repeat=k):
            yield ' '.join(t) + '\nint last(void) { return 1; }', 'file scope'
    B = ['int', 'x', '*', '(', ')', '[2]', ';', ',', '=', '1', '{', '}', 't', 'struct', 's', 'enum']
    for k in range(0, (5 if tier == 'thorough' else 4) + 1):
        for t in itertools.product(B, repeat=k):
            yield 'typedef int t; struct s { int m; }; int f(int a) { %s ; return a; }' % ' '.join(t), 'block'


def part_tokens(tier):
    """the same sequences, executed"""
    n = 6 if tier == 'thorough' else 5
    toks = ['a', 'b', '-', '*', '(', ')', '!', '<', '?', ':', '&&', '=']
    for k in range(1, n + 1):
        for t in itertools.product(toks, repeat=k):
            if t[0] in (')', '?', ':', '&&', '=', '<') or t[-1] not in ('a', 'b', ')') or t.count('(') != t.count(')') or t.count('?') != t.count(':'):
                continue
            yield Unit('int f@(int a, int b) { int r = %s; return r * 100 + a * 10 + b; }' % ' '.join(t), [(3, 5), (0, 2), (4, 0)], tag='tokens', maybe=True, order=True)


# ---- declarators: all nestings
def build(cons, name):
    """declarator of a name whose type is the constructors from the outside in: p pointer, 2/3 array, f function(int)"""
    d = name
    for c in cons:
        if c == 'p':
            d = '*' + d
        else:
            if d[:1] == '*':
                d = '(%s)' % d
            d += '[%s]' % c if c.isdigit() else '(int)'
    return d


def redundant(cons, name):
    """the same with parentheses around every part"""
    d = '(%s)' % name
    for c in cons:
        d = '(*%s)' % d if c == 'p' else '(%s[%s])' % (d, c) if c.isdigit() else '(%s(int))' % d
    return d


def legal(cons):
    for x, y in zip(cons, cons[1:]):
        if x == 'f' and y in 'f23':
            return False
        if x in '23' and y == 'f':
            return False
    return True


def part_declarators(tier):
    D = 5 if tier == 'thorough' else 4
    for base, bt in [('int', 'int'), ('char', 'char'), ('long', 'long'), ('struct Q@', 'struct'), ('td@', 'char')]:
        pre = 'struct Q@ { int a; char b; int c; }; typedef char td@;\n'
        for k in range(0, D + 1):
            for cons in itertools.product('p23f', repeat=k):
                if not legal(cons) or cons and cons[0] == 'f':
                    continue
                for mk in (build, redundant):
                    d = mk(cons, 'x')
                    sz = ['x']
                    e = 'x'
                    for c in cons:
                        if c in 'p23':
                            e = '(*%s)' % e if c == 'p' else e + '[0]'
                        else:
                            e = e + '(0)'
                        sz.append(e)
                    # sizes of the object and of everything reached from it
                    s = ' * 31 + '.join('sizeof(%s)' % w for i, w in enumerate(sz) if i == len(cons) or cons[i] != 'f')
                    yield Unit(pre + 'long f@(void) { %s %s; return %s; }' % (base, d, s), tag='local ' + d)
                    yield Unit(pre + 'struct W@ { char p; %s %s; char q; }; long f@(void) { struct W@ w; return sizeof(w) * 1000 + (long)((char *)&w.x - (char *)&w); }' % (base, d), tag='member ' + d)
                    ty = mk(cons, '').replace('()', '') if mk is build else None
                    if ty is not None:
                        yield Unit(pre + 'long f@(void) { return sizeof(%s %s); }' % (base, ty), tag='type name ' + ty, maybe=True)
                    if not cons or cons[0] not in '23':
                        yield Unit(pre + 'typedef %s %s; long f@(void) { T@ x; return %s; }' % (base, mk(cons, 'T@'), s), tag='typedef')
                    yield Unit(pre + 'long g@(%s %s) { return sizeof(x) + 1; } long f@(void) { return 1; }' % (base, d) if base != 'struct Q@' or cons else
                               'long f@(void) { return 1; }', tag='param')
                    yield Unit(pre + 'typedef %s %s; long f@(void) { T@ x[2]; T@ *y; return sizeof(x) * 100 + sizeof(*y) + sizeof(y); }' % (base, mk(cons, 'T@')), tag='typedef')
    # several declarators in one declaration
    ds = ['a', '*a', '**a', 'a[2]', '*a[2]', '(*a)[2]', '(*a)(int)', 'a[2][3]', '(*a[2])(int)', '*(*a)(int)', '(**a)[3]']
    for x, y, z in itertools.product(ds, repeat=3):
        dd = ', '.join(w.replace('a', n) for w, n in ((x, 'a'), (y, 'b'), (z, 'c')))
        yield Unit('long f@(void) { int %s; return sizeof(a) * 10000 + sizeof(b) * 100 + sizeof(c); }' % dd, tag='list')
        if z == ds[0] or tier == 'thorough':
            yield Unit('struct S@ { char k; int %s; }; long f@(void) { struct S@ s; return sizeof(s.a) * 10000 + sizeof(s.b) * 100 + sizeof(s.c) + 1000000 * sizeof(s); }' % dd, tag='member list')
            yield Unit('typedef char %s; long f@(void) { a@ x; b@ y; c@ z; return sizeof(x) * 10000 + sizeof(y) * 100 + sizeof(z); }'
                       % ', '.join(w.replace('a', n) for w, n in ((x, 'a@'), (y, 'b@'), (z, 'c@'))), tag='typedef list')
    for t in itertools.product(['a = 1', 'a', '*a = &q', 'a[2] = {7, 8}'], repeat=3):
        names = 'xyz'
        dd = ', '.join(w.replace('a', n) for w, n in zip(t, names))
        use = ' * 31 + '.join({'a = 1': '%s', 'a': '0 * sizeof(%s)', '*a = &q': '*%s', 'a[2] = {7, 8}': '%s[1]'}[w] % n for w, n in zip(t, names))
        yield Unit('long f@(void) { int q = 5; int %s; return %s; }' % (dd, use), tag='initialised list')


# ---- declaration specifiers: all sequences of type words
def part_specs(tier):
    words = ['int', 'long', 'unsigned', 'char', 'void']
    for k in range(1, 6 if tier == 'thorough' else 5):
        for t in itertools.product(words[:4], repeat=k):
            s = ' '.join(t)
            yield Unit('long f@(void) { %s x; x = 0; x = x - 1; long r = sizeof(x); if (x < 0) r = r + 100; return r; }' % s, tag='spec', maybe=True)
            yield Unit('%s f@(%s x) { return x - 1; }' % (s, s), [(0,), (1,), (-1,)], tag='spec', maybe=True)
            yield Unit('long f@(int y) { return (%s)y; }' % s, [(-1,), (200,)], tag='spec cast', maybe=True)
            yield Unit('long f@(void) { return sizeof(%s); }' % s, tag='spec sizeof', maybe=True)
            yield Unit('struct S@ { char c; %s m; }; long f@(void) { struct S@ s; return sizeof(s); }' % s, tag='spec member', maybe=True)
            for i in range(k + 1):
                w = list(t)
                w.insert(i, 'typedef')
                yield Unit(' '.join(w) + ' T@; long f@(void) { T@ x; x = 0; x = x - 1; long r = sizeof(x); if (x < 0) r = r + 100; return r; }', tag='typedef', maybe=True)


def part_v_specs(tier):
    words = ['int', 'long', 'unsigned', 'char', 'void', 'typedef', 't', 'struct s', 'enum e']
    pre = 'typedef int t; struct s { int m; }; enum e { A };\n'
    for k in range(1, 5 if tier == 'thorough' else 4):
        for w in itertools.product(words, repeat=k):
            s = ' '.join(w)
            yield pre + '%s x; int f(void) { return 1; }' % s, 'file'
            yield pre + 'int f(void) { %s x; return 1; }' % s, 'block'
            yield pre + 'int f(void) { %s *x; return sizeof(x); }' % s, 'block pointer'
            yield pre + 'int f(%s x) { return 1; }' % s, 'param'
            yield pre + 'struct u { %s x; }; int f(void) { return 1; }' % s, 'member'
            yield pre + 'int f(void) { return sizeof(%s); }' % s, 'sizeof'
            yield pre + 'int f(int y) { (%s)y; return 1; }' % s, 'cast'
            yield pre + '%s f(void); int g(void) { return 1; }' % s, 'return type'
            yield pre + 'int f(void) { for (%s x; ; ) return 1; }' % s, 'for'


# ---- statements
def part_stmts(tier):
    """dangling else and statement bodies: all nestings of if/else/while/for without braces"""
    def bodies(n):
        if n == 0:
            yield 'ti(%d);'
            return
        for b in bodies(n - 1):
            yield 'if (%c) ' + b
            yield 'while (%c) ' + b
            yield 'for (; %c; ) ' + b
            yield '{ ' + b + ' }'
            yield 'if (%c) ti(%d); else ' + b
            yield 'switch (%c) case 1: ' + b
            yield 'switch (%c) default: ' + b
        if n >= 2:
            for k in range(0, n - 1):
                for a in bodies(k):
                    for b in bodies(n - 2 - k):
                        yield 'if (%c) ' + a + ' else ' + b
        if n >= 2:
            for a in bodies(n - 2):
                yield 'if (%c) if (%c) ' + a + ' else ti(%d);'
                yield 'if (%c) { if (%c) ' + a + ' } else ti(%d);'
                yield 'while (%c) if (%c) ' + a + ' else ti(%d);'
                yield 'if (%c) while (%c) ' + a + ' else ti(%d);'
                yield 'if (%c) for (;%c;) if (%c) ' + a + ' else ti(%d); else ti(%d);'
                yield 'if (%c) switch (%c) case 1: if (%c) ' + a + ' else ti(%d); else ti(%d);'
    n = 5 if tier == 'thorough' else 4
    for k in range(1, n + 1):
        for b in bodies(k):
            c = 0
            d = 0
            out = ''
            i = 0
            while i < len(b):
                if b[i:i + 2] == '%c':
                    out += 'd@(%d)' % c
                    c += 1
                    i += 2
                elif b[i:i + 2] == '%d':
                    d += 1
                    out += '%d' % d
                    i += 2
                else:
                    out += b[i]
                    i += 1
            if c > 5:
                continue
            # the conditions take their values from the bits of w, once each; every loop condition is false the second time
            yield Unit('int w@; int d@(int i) { int r = w@ >> i & 1; w@ = w@ & ~(1 << i); return r; }\nint f@(int w) { w@ = w; %s ti(99); return w@; }' % out,
                       [(w,) for w in range(1 << c)], tag='stmt')


# ---- casts and parentheses with typedef names
def part_cast(tier):
    ctx = ['(X)a', '(X)(a)', '((X)a)', '(X)-a', '(X)+a', '(X)*p', '(X)&a == (X)&a', '(X)a + 1', '(X)a * 2', '(X)(a + 1)', '(X)v[1]', '(X)s.m', '(X)q->m', '(X)g@(a)', '(X)a++',
           '(X)(X)a', '(X)!a', '(X)~a', '-(X)a', '!(X)a', 'sizeof(X)', 'sizeof((X)a)', 'sizeof(X) * a', 'sizeof (X) + a', '(a) - 1', '(a) + (X)a', '(X)sizeof a', '(X)sizeof(X)',
           '(a)', '(a) * 2', '((a))', '(a) ? (X)a : (X)1', '(X)a ? 2 : 3', '(X)(a ? 300 : 5)', '(X)1', "(X)'a'", '(X)a == a', '(X)a << 1', '(X)--a', '(a)++', '(a)--', '-(a)', '(*p)', '(*p)++', '&(*p) == p', '(v)[1]', '(s).m', '(q)->m', '(g@)(a)', '(&s)->m', '(*q).m', '*(p)', '*(&a)', '*(v + 1)', '(v + 1)[0]']
    for X in ['int', 'char', 'long', 'unsigned int', 'T@', 'U@', 'unsigned long long', 'enum E@']:
        for c in ctx:
            yield Unit('typedef char T@; typedef long U@; enum E@ { EA@ }; struct S@ { int k; int m; }; int g@(int x) { return x + 300; }\n'
                       'long f@(int a) { int *p = &a; int v[3]; v[0] = 1; v[1] = 500; v[2] = 3; struct S@ s; s.k = 0; s.m = a + 1000; struct S@ *q = &s; long r = %s; return r * 10000 + a; }' % c.replace('X', X),
                       [(0,), (5,), (-3,), (300,)], tag=c, maybe=True)
    for t in ['int', 'T@', 'struct S@', 'int *', 'T@ *', 'struct S@ *', 'char [3]', 'T@ [4]', 'int (*)[3]', 'int (*)(int)', 'int *[5]', 'T@ *[2][3]', 'long (*[7])(int)', 'enum E@', 'U@ **', 'char (*(*)(int))[3]']:
        yield Unit('typedef char T@; typedef long U@; enum E@ { EA@ }; struct S@ { int k; char m; };\nlong f@(void) { return sizeof(%s); }' % t, tag='type name')


# ---- commas and lists
def part_lists(tier):
    for n in range(1, 12):
        args = ', '.join('a + %d' % i for i in range(n))
        ps = ', '.join('int p%d' % i for i in range(n))
        body = ' + '.join('p%d * %d' % (i, i + 1) for i in range(n))
        yield Unit('int g@(%s) { return %s; } int f@(int a) { return g@(%s); }' % (ps, body, args), [(1,), (-4,)], tag='args')
        yield Unit('enum E@ { %s }; int f@(void) { return %s; }' % (', '.join('K@%d' % i for i in range(n)), ' * 3 + '.join('K@%d' % i for i in range(n))), tag='enum')
        yield Unit('enum E@ { %s, }; int f@(void) { return %s; }' % (', '.join('K@%d' % i for i in range(n)), ' * 3 + '.join('K@%d' % i for i in range(n))), tag='enum')
        for com in ('', ','):
            yield Unit('int f@(int a) { int v[%d] = {%s%s}; int h = 0; int i; for (i = 0; i < %d; i++) h = h * 31 + v[i]; return h; }' % (n, args, com, n), [(1,), (-4,)], tag='init')
            yield Unit('int g@[%d] = {%s%s}; int f@(void) { int h = 0; int i; for (i = 0; i < %d; i++) h = h * 31 + g@[i]; return h; }' % (n, ', '.join(str(i * 7 + 1) for i in range(n)), com, n), tag='ginit')
        yield Unit('struct S@ { int %s; }; int f@(int a) { struct S@ s = {%s}; return %s; }' % (', '.join('m%d' % i for i in range(n)), args, ' * 3 + '.join('s.m%d' % i for i in range(n))), [(2,)], tag='members')
    # enumerator values: all patterns of explicit and implicit
    for n in range(1, 6 if tier != 'thorough' else 8):
        for pat in itertools.product([None, 5, -1, 0], repeat=n):
            es = ', '.join('K@%d%s' % (i, '' if v is None else ' = %d' % v) for i, v in enumerate(pat))
            yield Unit('enum E@ { %s }; int f@(void) { return %s; }' % (es, ' * 7 + '.join('K@%d' % i for i in range(n))), tag='enumval', maybe=True)


PARTS = [('prec', part_prec), ('v:tokens', part_v_tokens), ('tokens', part_tokens), ('declarators', part_declarators), ('specs', part_specs),
         ('v:specs', part_v_specs), ('stmts', part_stmts), ('cast', part_cast), ('lists', part_lists)]
