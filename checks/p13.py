"""Ill-formed programs are diagnosed and produce no output; well-formed neighbours are accepted: type rules of every operator and
context over all pairs of type kinds, misplaced statements, and every one-token change of seed programs."""
import itertools
from harness import *
from gen import *

PRE = '''typedef int ti; struct s { int m; char n; }; typedef struct s st; struct u { int m; }; enum e { EA, EB };
struct inc; int gf(int x) { return x; } int gg(int x) { return x + 1; } void gv(void) { ; } char *gs(char *p) { return p; } struct s gso; int ga[3];
'''
# name, declaration, expression
KINDS = [
    ('int', 'int i_;', 'i_'), ('char', 'char c_;', 'c_'), ('long', 'long l_;', 'l_'), ('uint', 'unsigned int u_;', 'u_'), ('ullong', 'unsigned long long w_;', 'w_'),
    ('enum', 'enum e n_;', 'n_'), ('enumc', '', 'EB'), ('lit', '', '5'), ('chr', '', "'a'"), ('pint', 'int *p_;', 'p_'), ('pchar', 'char *q_;', 'q_'),
    ('pvoid', 'void *v_;', 'v_'), ('pp', 'int **pp_;', 'pp_'), ('ps', 'struct s *ps_;', 'ps_'), ('pu', 'struct u *pu_;', 'pu_'), ('pinc', 'struct inc *pi_;', 'pi_'), ('pa', 'int (*pa_)[3];', 'pa_'),
    ('arr', 'int a_[3];', 'a_'), ('carr', 'char ca_[4];', 'ca_'), ('aa', 'int aa_[2][3];', 'aa_'), ('struct', 'struct s s_;', 's_'), ('struct2', 'struct u u2_;', 'u2_'),
    ('fn', '', 'gf'), ('fn2', '', 'gs'), ('pfn', 'int (*f_)(int);', 'f_'), ('str', '', '"ab"'), ('void', '', 'gv()'), ('call', '', 'gf(1)'), ('rval', 'int r_;', '(r_ + 1)'), ('elem', 'int e_[2];', 'e_[0]'),
    ('mem', 'struct s m_;', 'm_.m'), ('deref', 'int *d_;', '*d_'), ('td', 'ti t_;', 't_'), ('cast', 'int k_;', '(char)k_'), ('zero', '', '0'), ('cond', 'int co_;', '(co_ ? 1 : 2)'),
]


def prog(decl, stmt, ret='int'):
    return PRE + '%s f(int z) { %s %s return %s; }' % (ret, decl, stmt, '0' if ret != 'void' else '')


def part_v_binary(tier):
    for (an, ad, ae), (bn, bd, be) in itertools.product(KINDS, repeat=2):
        d = ad + (' ' + bd if bd != ad else '')
        for op in BINOPS + ['=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '&=', '^=', '|=', ',']:
            yield prog(d, '%s %s %s;' % (ae, op, be)), '%s %s %s' % (an, op, bn)
        yield prog(d, '%s[%s];' % (ae, be)), '%s[%s]' % (an, bn)
        yield prog(d, 'z ? %s : %s;' % (ae, be)), '?: %s %s' % (an, bn)
        yield prog(d, '%s(%s);' % (ae, be)), '%s(%s)' % (an, bn)
        yield prog(d, '%s[%s] = 1;' % (ae, be)), '%s[%s]=' % (an, bn)
        yield prog(d, '%s + %s + 1;' % (ae, be)), 'sum'


def part_v_unary(tier):
    for n, d, e in KINDS:
        for u in ['+', '-', '~', '!', '*', '&', '++', '--', 'sizeof ', '(int)', '(char)', '(long)', '(unsigned int)', '(int *)', '(char *)', '(void *)', '(struct s *)', '(struct s)', '(void)',
                  '(int (*)(int))', '(int [3])', '(ti)', '(st)', '(st *)', '(enum e)', '(struct inc)', '(struct inc *)', '(int (int))', '**', '&*', '*&', '&&', '!!', '- -', '++++', '~-', '(char)(int)', '(int *)(char *)', '(int)(int *)', '(long)(int *)', '(int *)(int)', '(char)(int *)', '(int *)(char)']:
            yield prog(d, '%s%s;' % (u, e)), u + n
            yield prog(d, '%s(%s);' % (u, e)), u + n
        for p in ['++', '--', '.m', '->m', '.x', '->x', '.n', '->n', '[0]', '[z]', '()', '(1)', '(1, 2)', '("a")', '(z)(z)', '++ ++', '.m.m', '->m->m', '[0][0]', '[0][0][0]', '.m[0]', '->m = 1', '.m = 1', '[0] = 1', '++ = 1', '() = 1', '.m++', '->n--']:
            yield prog(d, '%s%s;' % (e, p)), n + p
        yield prog(d, 'sizeof(%s);' % e), 'sizeof ' + n
        yield prog(d, '(%s);' % e), '() ' + n
        yield prog(d, '%s;' % e), n


TYPES2 = ['int', 'char', 'long', 'unsigned int', 'int *', 'char *', 'void *', 'struct s', 'struct u', 'struct s *', 'struct u *', 'struct inc *', 'enum e', 'ti', 'st', 'st *', 'void', 'struct inc']
DECLS2 = ['int @', 'char @', 'long @', 'unsigned int @', 'unsigned long long @', 'int *@', 'char *@', 'void *@', 'int **@', 'struct s @', 'struct u @', 'struct s *@', 'struct u *@', 'struct inc *@', 'enum e @', 'ti @', 'st @', 'st *@',
          'int @[3]', 'char @[3]', 'int @[2][3]', 'int (*@)[3]', 'int (*@)(int)', 'char *(*@)(char *)', 'void @', 'struct inc @', 'int @(int)', 'int *@[2]', 'void (*@)(void)', 'struct nope @', 'struct nope *@', 'enum nope @', 'void @[2]', 'struct inc @[2]', 'int @[0]', 'int @[-1]', 'int @(int)[2]', 'int @(int)(int)', 'int @[2](int)', 'struct nope @(int)', 'struct inc @(int)', 'void @(void)', 'char @(struct inc)', 'int @(void *)', 'int @(int, int)', 'int (*@[2])(int)']


def part_v_convert(tier):
    """every conversion context: initialiser, assignment, argument, return, for all pairs of type kinds"""
    for (n, d, e), dd in itertools.product(KINDS, DECLS2):
        yield prog(d, '%s = %s;' % (dd.replace('@', 'x'), e)), 'init ' + dd
        yield prog(d, '%s = {%s};' % (dd.replace('@', 'x'), e)), 'init braces ' + dd
        yield prog(d, '%s; x = %s;' % (dd.replace('@', 'x'), e)), 'assign ' + dd
        if '(int)(int)' not in dd:
            yield PRE + 'int h(%s); int f(int z) { %s return h(%s); }' % (dd.replace('@', 'x'), d, e), 'argument ' + dd
            yield PRE + 'int f(%s, int z) { %s return %s; }' % (dd.replace('@', 'x'), d, 'z'), 'parameter ' + dd
    for (n, d, e), t in itertools.product(KINDS, TYPES2):
        yield PRE + '%s f(int z) { %s return %s; }' % (t, d, e), 'return %s' % t
        yield PRE + '%s f(int z) { %s if (z) return %s; return %s; }' % (t, d, e, e), 'return %s' % t
    for t in TYPES2:
        yield PRE + '%s f(int z) { return; }' % t, 'return nothing'
        yield PRE + '%s f(int z) { ; }' % t, 'no return'
        yield PRE + '%s f(int z);' % t, 'prototype'
        yield PRE + '%s *f(int z); int g(int z) { return 1; }' % t, 'prototype'
    for n, d, e in KINDS:
        for s in ['if (%s) ;', 'while (%s) ;', 'for (; %s; ) ;', 'for (%s; ; ) ;', 'for (; ; %s) ;', 'switch (%s) { case 1: ; }', 'switch (z) { case %s: ; }', 'if (z) %s; else %s;', 'return %s;', 'int v[%s];', 'if (!%s) ;', 'z = %s ? 1 : 2;', 'z = %s && z;', 'z = z || %s;',
                  'for (z = %s; z; z--) ;', 'switch (%s) ;', 'switch (%s) { default: ; }', '{ %s; }', 'int x = %s;', 'gf(%s);', 'gs(%s);', 'f(%s);', 'z = gf(%s) + 1;', '*%s = 1;', '%s = %s;', '%s += 1;', '%s = 1;']:
            yield prog(d, s.replace('%s', e)), s
        yield PRE + 'enum q { Q1 = %s }; int f(int z) { %s return 1; }' % (e, d), 'enum value'
        yield PRE + 'int gx = %s; int f(int z) { %s return 1; }' % (e, d), 'global init'
        yield PRE + 'char *gx = %s; int f(int z) { %s return 1; }' % (e, d), 'global init'
        yield PRE + 'int gx[2] = {%s}; int f(int z) { %s return 1; }' % (e, d), 'global init'
        yield PRE + 'struct s gx = {%s}; int f(int z) { %s return 1; }' % (e, d), 'global init'
        yield PRE + 'struct s gx = %s; int f(int z) { %s return 1; }' % (e, d), 'global init'


def part_v_calls(tier):
    """number and kinds of arguments"""
    ps = ['int', 'char *', 'long', 'struct s *']
    args = ['z', '"a"', '&so', '&z', 'so', 'gf', '1l', 'gv()']
    for n in range(0, 4):
        for p in itertools.product(ps, repeat=n):
            if n == 3 and tier != 'thorough' and len(set(p)) == 3:
                continue
            pl = ', '.join(p) or 'void'
            for m in range(0, 4 if n < 3 else 5):
                for a in itertools.product(args if m < 3 else args[:4], repeat=m):
                    if abs(m - n) > 1 or (m == 4 and len(set(a)) > 1):
                        continue
                    yield PRE + 'int h(%s); int f(int z) { struct s so; h(%s); return 1; }' % (pl, ', '.join(a)), 'call'
                    if n < 2:
                        yield PRE + 'int f(int z) { struct s so; int (*h)(%s); h(%s); (*h)(%s); return 1; }' % (pl, ', '.join(a), ', '.join(a)), 'call pointer'


def part_v_place(tier):
    """break, continue, case, default and return in every kind of statement nesting"""
    inner = ['break;', 'continue;', 'case 1: ;', 'default: ;', 'return;', 'return 1;', 'case 1: break;', 'case 2: case 2: ;', 'case 1: continue;', 'else ;', '{ case 1: ; }', 'case z: ;', 'case 1l: ;', "case 'a': ;", 'case EA: ;', 'case -1: ;', 'case 1 + 1: ;', 'case "a": ;', 'case gf(1): ;', 'default: default: ;', 'case: ;', 'default 1: ;']
    wraps = ['%s', '{ %s }', 'if (z) %s', 'if (z) ; else %s', 'while (z) %s', 'for (;;) %s', 'switch (z) %s', 'switch (z) { %s }', 'switch (z) { case 9: %s }', 'switch (z) { default: %s }', 'switch (z) { case 1: ; %s }', 'for (int q = 0; q < 3; q++) { %s }', 'while (z) { ; %s }']
    for ret in ('int', 'void', 'char *'):
        for i in inner:
            for k in (1, 2, 3):
                for w in itertools.product(wraps, repeat=k):
                    if k == 3 and (ret != 'int' or tier != 'thorough' and w[0] != '%s' and '{' not in w[0]):
                        continue
                    s = i
                    for x in w:
                        s = x % s
                    yield 'enum e { EA }; int gf(int x) { return x; } %s f(int z) { %s %s }' % (ret, s, '' if ret == 'void' else 'return 0;'), i
    # two labels in one switch
    labs = ['case 0:', 'case 1:', 'case 2:', 'default:', 'case EB:', "case '\\1':", 'case 01:', 'case 0x1:', 'case 1u:', 'case 4294967297:', 'case 257:', 'case -1:', 'case 18446744073709551615u:', 'case 4294967295:']
    for a, b in itertools.product(labs, repeat=2):
        for t in ('int', 'char', 'long', 'unsigned int', 'unsigned long'):
            yield 'enum e { EA, EB }; int f(%s z) { switch (z) { %s return 1; %s return 2; } return 3; }' % (t, a, b), 'labels ' + t
        yield 'enum e { EA, EB }; int f(int z) { switch (z) { %s switch (z) { %s return 2; } } return 3; }' % (a, b), 'nested labels'
        yield 'enum e { EA, EB }; int f(int z) { switch (z) { %s { %s return 2; } } return 3; }' % (a, b), 'labels in a block'
        yield 'enum e { EA, EB }; int f(int z) { switch (z) { %s ; } switch (z) { %s ; } return 3; }' % (a, b), 'two switches'


def part_v_decl(tier):
    """pairs of declarations of one name in one scope, in three scopes; struct and enum definitions"""
    ds = ['int x;', 'char x;', 'int *x;', 'int x[2];', 'int x = 1;', 'typedef int x;', 'enum { x };', 'enum { y, x };', 'struct x { int a; };', 'struct x;', 'enum x { z };', 'int x(int);', 'int x(void);', 'struct { int a; } x;', 'typedef struct x { int q; } x;', 'struct x { int x; } x;', 'struct y { int x; };', 'int y, x;', 'int x, x;', 'void x;', 'struct x *x;', 'int x(int x);', 'int (*x)(int);']
    for a, b in itertools.product(ds, repeat=2):
        yield '%s %s int f(void) { return 1; }' % (a, b), 'file'
        yield 'int f(void) { %s %s return 1; }' % (a, b), 'block'
        yield '%s int f(void) { %s return 1; }' % (a, b), 'file block'
        yield 'int f(void) { %s { %s } return 1; }' % (a, b), 'block block'
        yield 'int f(void) { { %s } %s return 1; }' % (a, b), 'block after'
        yield 'int f(void) { { %s } { %s } return 1; }' % (a, b), 'siblings'
        yield '%s int f(int z) { return 1; } int g(int z) { %s return 2; }' % (a, b), 'functions'
        yield 'int f(int x) { %s { %s } return 1; }' % (a, b), 'param'
        yield 'int f(void) { for (%s 1; ) { %s } return 1; }' % (a, b), 'for'
    fs = ['int x(int a) { return a; }', 'int x(int a);', 'int x(void) { return 1; }', 'int x(void);', 'char x(int a);', 'int x;', 'typedef int x;', 'enum { x };', 'int x(int a, int b);', 'int x(char a);', 'int *x(int a);', 'void x(int a) { ; }']
    for a, b in itertools.product(fs, repeat=2):
        yield a + '\n' + b, 'functions'
        yield a + '\n' + b + '\nint f(void) { return sizeof(x); }', 'functions use'
    ms = ['int a;', 'char a;', 'int b;', 'int *a;', 'struct t c;', 'struct s c;', 'struct s *c;', 'int a, a;', 'int a[2];', 'void v;', 'int fn(int);', 'int;', 'int a = 1;', 'struct { int a; } d;', 'enum { a } e;', 'struct q *w;', 'typedef int g;', 'a;', ';', 'int *;', 'struct i { int a; } b;', 'struct s { int a; } c;', 'int (*fp)(int);', 'char n[0];']
    for k in (1, 2, 3):
        for m in itertools.product(ms, repeat=k):
            if k == 3 and tier != 'thorough' and 'int a;' not in m[:2]:
                continue
            yield 'struct t { int z; }; struct s { %s }; int f(void) { struct s v; return sizeof(v); }' % ' '.join(m), 'members'
    es = ['A', 'B', 'A = 1', 'B = A', 'A = A', 'A = "x"', 'A = x', 'A = 5000000000', 'A = 2147483647', 'A = -1', '', 'A = 1u', "A = 'c'", 'A = 1 + 1', 'f', 'int', 'x', 'e', 'A = B', '1', 'A =']
    for k in (1, 2, 3):
        for m in itertools.product(es, repeat=k):
            if k == 3 and tier != 'thorough' and m[0] not in ('A', 'B'):
                continue
            yield 'int x; enum e { %s }; int f(void) { return 1; }' % ', '.join(m), 'enumerators'


def part_v_enums(tier):
    """enumerators around the largest int, given and implied, in every place an enumeration can be defined"""
    vals = ['', '', ' = 0', ' = 5', ' = 2147483646', ' = 2147483647', ' = 2147483648', ' = 4294967295', ' = 4294967296', ' = 4294967301', ' = 9223372036854775807', ' = 5l', ' = 2147483647L', ' = 2147483648L', ' = 4294967296ll', " = 'z'", ' = 7u', ' = 0x7fffffff', ' = 0x80000000', ' = 020000000000', ' = 0xffffffff']
    vals = vals[1:]
    for k in (1, 2, 3):
        for m in itertools.product(vals, repeat=k):
            l = ', '.join('N%d%s' % (i, v) for i, v in enumerate(m))
            yield 'enum e { %s }; int f(void) { return N0; }' % l, 'enumerators'
            if k < 3 or tier == 'thorough':
                yield 'enum e { %s, }; int f(void) { return N0; }' % l, 'enumerators comma'
                yield 'int f(void) { enum { %s } x = N0; return x; }' % l, 'enumerators block'
                yield 'struct s { int a; enum e { %s } b; }; int f(void) { return N0; }' % l, 'enumerators member'
                yield 'typedef enum { %s } t; t f(t z) { return z; }' % l, 'enumerators typedef'
                yield 'enum d { M = 9 }; enum e { %s, L }; enum g { O, P }; int f(void) { switch (1) { case L: return P; } return N0; }' % l, 'enumerators between'
                yield 'int f(int z) { for (enum e { %s } i = N0; z; ) return i; return 1; }' % l, 'enumerators for'


# ---- every one-token change of seed programs
SEEDS = [
    'int f ( int a , int b ) { int c = a + b * 3 ; if ( a < b ) c ++ ; else c -= 2 ; return c ; }',
    'struct s { int m ; char n [ 3 ] ; } ; int f ( int a ) { struct s x ; struct s * p = & x ; p -> m = a ; x . n [ 1 ] = 98 ; return p -> m ; }',
    'int f ( int a ) { int i ; int s = 0 ; for ( i = 0 ; i < 5 ; i ++ ) { if ( i == 2 ) continue ; s += a ? a : - i ; } return s ; }',
    'typedef unsigned int u ; enum e { A , B = 7 } ; u f ( u x ) { switch ( x ) { case 1 : return A ; case B : x = ~ x ; break ; default : x = ! x ; } while ( x > 9 ) x /= 2 ; return x ; }',
    'int g ( char * p , int n ) { return p [ n ] ; } int v [ 2 ] = { 1 , 2 } ; int f ( void ) { char * q = "abc" ; int ( * h ) ( char * , int ) = g ; return h ( q , v [ 0 ] ) + ( int ) sizeof ( v ) ; }',
    'long x = 5 ; void h ( long * p ) { * p = * p << 1 | 1 ; } long f ( long a ) { long y [ 2 ] [ 3 ] ; h ( & y [ 1 ] [ 2 ] ) ; { long x = a ; y [ 0 ] [ 0 ] = x ; } return x && a || y [ 0 ] [ 0 ] % 3 ; }',
]
TOKS = ['int', 'char', 'long', 'unsigned', 'void', 'struct', 'enum', 'typedef', 'if', 'else', 'while', 'for', 'switch', 'case', 'default', 'break', 'continue', 'return', 'sizeof', 'a', 'f', 's', 'x', 'm', 'u', 'zz', '0', '1', '"s"', "'c'",
        '(', ')', '{', '}', '[', ']', ';', ',', ':', '?', '=', '+', '-', '*', '/', '%', '&', '|', '^', '~', '!', '<', '>', '<<', '==', '&&', '||', '++', '--', '->', '.', '+=', '<<=']


def part_v_mutate(tier):
    for s in SEEDS:
        t = s.split(' ')
        yield s, 'seed'
        for i in range(len(t) + 1):
            for w in TOKS:
                yield ' '.join(t[:i] + [w] + t[i:]), 'insert'
                if i < len(t):
                    yield ' '.join(t[:i] + [w] + t[i + 1:]), 'replace'
            if i < len(t):
                yield ' '.join(t[:i] + t[i + 1:]), 'delete'
                yield ' '.join(t[:i] + [t[i]] + t[i:]), 'double'
                yield ' '.join(t[:i]), 'cut'
                yield ' '.join(t[i:]), 'tail'
            for j in range(i + 1, min(len(t), i + 12 if tier != 'thorough' else len(t))):
                yield ' '.join(t[:i] + t[j + 1:]), 'delete run'
                if i < j:
                    yield ' '.join(t[:i] + [t[j]] + t[i + 1:j] + [t[i]] + t[j + 1:]), 'swap'
        if tier == 'thorough':
            for i in range(len(t)):
                for j in range(i + 1, min(i + 3, len(t))):
                    for w in TOKS:
                        for v in TOKS:
                            yield ' '.join(t[:i] + [w] + t[i + 1:j] + [v] + t[j + 1:]), 'two'


def part_v_excess(tier):
    from p08 import excess
    yield from excess()


def part_v_far(tier):
    """rules that relate two places of a program, or one place to how much came before it: the places are brought any distance apart"""
    NS = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 21, 22, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257] + ([500, 511, 512, 513, 1000, 1024, 1025] if tier == 'thorough' else [300])
    for n in NS:
        R = range(n)
        firsts = sorted({0, 1, n // 2, n - 2, n - 1} & set(R))
        jn = lambda f, sep=' ': sep.join(f(i) for i in R)
        lab = jn(lambda i: 'case %d: z++;' % (i * 3))
        for k in firsts:
            yield 'int f(int z) { switch (z) { %s case %d: ; } return z; }' % (lab, k * 3), 'far label'
            yield 'int f(int z) { switch (z) { %s switch (z) { case %d: ; } } return z; }' % (lab, k * 3), 'far label inner'
            yield 'int f(int z) { switch (z) { case %d: ; switch (z) { %s } case %d: ; } return z; }' % (k * 3 + 1, lab, k * 3), 'far label around'
            yield 'int f(int z) { switch (z) { case %d: ; switch (z) { %s } case %d: ; } return z; }' % (k * 3, lab, k * 3), 'far label around'
            yield 'char f(unsigned long z) { switch (z) { %s case %dl: ; } return 0; }' % (lab, k * 3), 'far label'
        yield 'int f(int z) { switch (z) { %s case 1: ; } return z; }' % lab, 'far label'
        yield 'int f(int z) { switch (z) { default: ; %s } return z; }' % lab, 'far default'
        yield 'int f(int z) { switch (z) { default: ; %s default: ; } return z; }' % lab, 'far default'
        yield 'int f(int z) { switch (z) { default: ; switch (z) { default: ; %s } default: ; } return z; }' % lab, 'far default'
        yield 'int f(int z) { switch (z) { switch (z) { default: ; %s } default: ; } return z; }' % lab, 'far default'
        yield 'int f(int z) { switch (z) { %s } case 7: ; return z; }' % lab, 'after switch'
        yield 'int f(int z) { switch (z) { %s } default: ; return z; }' % lab, 'after switch'
        loops = jn(lambda i: ['while (z) { z--; }', 'for (;;) break;', 'switch (z) { case 1: break; }', 'for (; z; z--) continue;'][i % 4])
        nest = lambda x: jn(lambda i: ['while (z) {', 'for (;;) {', 'switch (z) { case %d:' % i, '{'][i % 4]) + x + ' }' * n
        for x in ('break;', 'continue;', 'case 5: ;', 'default: ;', 'return 1;', 'u = 1;', 'z = 1;', 'return;', 'int z; z = 2;', 'int z; int z;'):
            yield 'int f(int z) { %s %s return z; }' % (loops, x), 'far jump'
            yield 'int f(int z) { { %s } %s return z; } int g(int z) { %s return z; }' % (loops, x, loops), 'far jump'
            yield 'int g(int z) { %s return z; } int f(int z) { %s return z; }' % (loops, x), 'far jump'
            if n <= 65:
                yield 'int f(int z) { %s return z; }' % nest(x), 'deep jump'
                yield 'int f(int z) { %s %s return z; }' % (nest(';'), x), 'deep jump'
        # one declaration and n others
        same = [('int a%d;', ['int a%d;', 'char a%d;', 'int a%d(void);', 'typedef int a%d;', 'enum { a%d };', 'int a%d(void) { return 1; }']), ('int a%d(int x);', ['int a%d(int x);', 'int a%d(int x, int y);', 'char a%d(int x);', 'int a%d;', 'int a%d(int x) { return x; }']),
                ('typedef int a%d;', ['typedef int a%d;', 'typedef char a%d;', 'int a%d;']), ('struct a%d { int m; };', ['struct a%d { int m; };', 'enum a%d { k };', 'int a%d;', 'struct a%d z; int g(void) { return z.m; }', 'struct a%d *z; int g(void) { return z->n; }']),
                ('enum a%d { e%d };', ['enum a%d { k };', 'struct a%d { int m; };', 'int e%d;', 'int g(void) { return e%d; }', 'int e%d(void) { return 1; }'])]
        for d, os in same:
            ds = jn(lambda i: d.replace('%d', str(i)))
            for k in firsts + [n]:
                for o in os:
                    oo = o.replace('%d', str(k))
                    yield '%s %s' % (ds, oo), 'far name'
                    if 'return' not in o and '(' not in d:
                        yield 'int f(void) { %s %s return 1; }' % (ds, oo), 'far name inside'
                        yield '%s int f(void) { %s return 1; }' % (ds, oo), 'far name between'
                        yield 'int f(void) { %s { %s } return 1; }' % (ds, oo), 'far name between'
                        yield 'int f(void) { { %s } %s return 1; }' % (ds, oo), 'far name between'
            yield '%s int f(void) { return a%d; }' % (ds, n - 1), 'far use'
            yield '%s int f(void) { return a%d; }' % (ds, n), 'far use'
            yield 'int f(void) { { %s } return a%d; }' % (ds, n - 1) if '(' not in d else ds, 'far use'
        mem = jn(lambda i: ['int', 'char', 'long'][i % 3] + ' m%d;' % i)
        for k in firsts + [n]:
            yield 'struct s { %s int m%d; };' % (mem, k), 'far member'
            yield 'struct s { %s }; int f(struct s *p) { return p->m%d; }' % (mem, k), 'far member'
            yield 'enum e { %s, e%d };' % (jn(lambda i: 'e%d' % i, ', '), k), 'far enumerator'
            yield 'enum e { %s }; int f(void) { return e%d; }' % (jn(lambda i: 'e%d' % i, ', '), k), 'far enumerator'
            if n <= 129:
                T = ['int', 'char *', 'struct t *', 'long']
                A = ['1', '"a"', 'q', '2l']
                pars = jn(lambda i: '%s p%d' % (T[i % 4], i), ', ')
                yield 'struct t { int m; }; int f(%s, int p%d) { return 1; }' % (pars, k), 'far parameter'
                yield 'struct t { int m; }; int f(%s) { return p%d ? 1 : 2; }' % (pars, k), 'far parameter'
                yield 'struct t { int m; }; int f(%s) { int p%d; return 1; }' % (pars, k), 'far parameter'
                yield 'struct t { int m; }; int f(%s) { { int p%d; } return 1; }' % (pars, k), 'far parameter'
                hd = 'struct t { int m; }; int h(%s); int f(struct t *q) { struct t w; return h(' % pars
                args = [A[i % 4] for i in R]
                yield hd + ', '.join(args) + '); }', 'far argument'
                if k < n:
                    for x in ('1', '"a"', 'q', 'w', '&q', '*q'):
                        yield hd + ', '.join(args[:k] + [x] + args[k + 1:]) + '); }', 'far argument'
                    yield hd + ', '.join(args[:k] + args[k + 1:]) + '); }', 'far argument'
                    yield hd + ', '.join(args[:k] + args[k:k + 1] * 2 + args[k + 1:]) + '); }', 'far argument'
                    yield 'struct t { int m; }; int h(%s); int h(%s) { return 1; }' % (pars, jn(lambda i: '%s p%d' % (T[i % 4] if i != k else 'char', i), ', ')), 'far parameter type'
                    yield 'struct t { int m; }; int h(%s); int h(%s) { return 1; }' % (pars, jn(lambda i: '%s r%d' % (T[i % 4], i), ', ')), 'far parameter type'
                    sm = 'struct t { int m; } o; struct s { %s };' % jn(lambda i: '%s m%d;' % (T[i % 4], i))
                    vals = [['1', '"a"', '&w', '2l'][i % 4] for i in R]
                    for x in ('1', '"a"', '&w', 'w', '{1}', '{"a"}', '{&w}', '{1, 2}'):
                        yield sm + ' int f(void) { struct t w; struct s v = {%s}; return 1; }' % ', '.join(vals[:k] + [x] + vals[k + 1:]), 'far value'
        for x in ('q', 'q = 1;', '1 +;', '"a" * 2;', 'return "a";', '*z;', 'z();', 'int z;', 'else ;', '}', '{', ')', "'';", '@'):
            yield 'int f(int z) { %s %s return z; }' % (jn(lambda i: 'z += %d;' % i), x), 'far error'
            yield '%s int f(int z) { %s return z; }' % (jn(lambda i: 'int g%d(int z) { return z + %d; }' % (i, i)), x), 'far error'
            yield 'int f(int z) { return z; } %s %s' % (jn(lambda i: 'int g%d = %d;' % (i, i)), x), 'far error'


PARTS = [('v:binary', part_v_binary), ('v:unary', part_v_unary), ('v:convert', part_v_convert), ('v:calls', part_v_calls), ('v:place', part_v_place),
         ('v:decl', part_v_decl), ('v:enums', part_v_enums), ('v:mutate', part_v_mutate), ('v:excess', part_v_excess), ('v:far', part_v_far)]
