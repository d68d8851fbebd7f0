"""Lexing: source text is split into the tokens C prescribes (longest match), constants have the value and type of their
spelling, white space only separates."""
import itertools
from harness import *
from gen import *
import refc

PCH = '[](){}.&*+-~!/%<>^|?:;=,'
OPCH = '+-*&|<>=!~^?:%/.'
WS = [' ', '\t', '\n', '\v', '\f']


def strings(chars, n):
    for k in range(n + 1):
        for t in itertools.product(chars, repeat=k):
            yield ''.join(t)


# ---- operators between operands: the longest punctuator is taken
PRE = 'struct S { int a; int *q; };\n'
FRAMES = [
    ('int f@(int a, int b) { return a%sb; }', 'int'),
    ('int f@(int x, int y) { int v[3]; v[0] = x; v[1] = y; v[2] = 7; int *a = v + 1; int b = y; int r = *a%sb; return r * 1000 + (int)(a - v) * 100 + b; }', 'ptr'),
    ('int f@(int a, int b) { int c = a; int r = c%s b; return r * 100 + c; }', 'var'),
]


def part_v_munch(tier):
    n = 4 if tier == 'thorough' else 3
    for s in strings(PCH, n):
        yield 'int f(int a, int b) { return a%sb; }' % s, 'munch'
    for s in strings(OPCH, n):
        yield 'int f(int *a, int b) { int c; c = *a%sb; return c; }' % s, 'munch ptr'
        yield 'int f(int a, int b) { a%sb%sa; return a; }' % (s, s), 'munch twice'
    for s in strings(PCH, 2):
        yield 'int f(int a, int b) { %s; return a; }' % s, 'munch statement'
        yield 'int x%s; int f(int a) { return a; }' % s, 'munch file scope'
        yield 'int f(int a, int b) { %sa%s; return a; }' % (s, s), 'munch around'
        yield 'struct s { int m; int n; }; int f(struct s *p, struct s a) { return p%sm; }' % s, 'munch member'
        yield 'struct s { int m; int n; }; int f(struct s *p) { struct s a; a%sm = 1; return 1; }' % s, 'munch member'


def part_munch(tier):
    n = 5 if tier == 'thorough' else 4
    chars = '+-*&|<>=!~'
    vals = [(5, 3), (0, 1), (-7, 2), (1, 0)]
    for s in strings(chars, n):
        yield Unit('int f@(int a, int b) { return a%sb; }' % s, vals, tag='munch', maybe=True)
        if len(s) <= 3:
            yield Unit(FRAMES[1][0] % s, vals, tag='munch ptr', maybe=True)
            yield Unit(FRAMES[2][0] % s, vals, tag='munch var', maybe=True)
            yield Unit('int f@(int a, int b) { int r = a%sb%sa; return r * 10000 + a * 100 + b; }' % (s, s), vals, tag='munch twice', maybe=True)
            for c in ('/', '%', '^', '?', ':'):
                yield Unit('int f@(int a, int b) { int r = a%s%sb; return r * 10000 + a * 100 + b; }' % (c, s), vals, tag='munch mix', maybe=True)
                yield Unit('int f@(int a, int b) { int r = a%s%sb; return r * 10000 + a * 100 + b; }' % (s, c), vals, tag='munch mix', maybe=True)
    # spaces change where the punctuators end: all ways to split a run of operator characters
    for s in itertools.product('+-<>=&|', repeat=4 if tier == 'thorough' else 3):
        for cut in itertools.product((0, 1), repeat=len(s) - 1):
            t = s[0] + ''.join((' ' if c else '') + x for c, x in zip(cut, s[1:]))
            yield Unit('int f@(int a, int b) { int r = a%sb; return r * 10000 + a * 100 + b; }' % t, vals, tag='split', maybe=True)


# ---- integer constants
DIG = {10: '0123456789', 8: '01234567', 16: '0123456789abcdefABCDEF'}
SUFS = [''] + sorted(refc.SUFFIX)[1:] if '' in refc.SUFFIX else sorted(refc.SUFFIX)


def ival(w):
    """a function that shows value and type of the constant w"""
    return ('unsigned long f@(void) { return %s; }' % w,
            # sizeof and sign of the type: -1 in the type of the constant, widened
            'int f@(void) { return sizeof(%s) * 2 + ((%s) * 0 - 1 < 0); }' % (w, w),
            'long f@(void) { return (%s) - (%s) - 1; }' % (w, w))


def bounds():
    out = set()
    for e in (0, 1, 7, 8, 15, 16, 30, 31, 32, 33, 47, 62, 63):
        for d in (-2, -1, 0, 1):
            v = (1 << e) + d
            if v >= 0:
                out.add(v)
    out |= {(1 << 64) - 1, (1 << 64) - 2, (1 << 64) - 255, 123456789, 9876543210, 0xdeadbeef, 0xdeadbeefcafebabe, 10, 100, 1000}
    return sorted(out)


def spellings(v):
    yield '%d' % v if v else '0'
    yield '0%o' % v if v else '00'
    yield '000%o' % v
    yield '0x%x' % v
    yield '0X%X' % v
    yield '0x%X' % v
    yield '0x000%x' % v


def part_ints(tier):
    for v in bounds():
        for w in spellings(v):
            for s in SUFS:
                for src in ival(w + s):
                    yield Unit(src, tag='bound', maybe=True)
    for w in strings('0123456789', 3 if tier != 'thorough' else 4):
        if w:
            yield Unit('unsigned long f@(void) { return %s; }' % w, tag='digits', maybe=True)
    for w in strings(DIG[16], 2 if tier != 'thorough' else 3):
        for x in ('0x', '0X'):
            yield Unit('unsigned long f@(void) { return %s%s; }' % (x, w), tag='hex', maybe=True)
            yield Unit('unsigned long f@(void) { return %s%s; }' % (x, w * 3), tag='hex', maybe=True)
    for w in strings('01234567', 3 if tier != 'thorough' else 4):
        yield Unit('unsigned long f@(void) { return 0%s; }' % w, tag='oct', maybe=True)
    # all lengths: one digit set in turn
    for n in range(1, 25):
        for d in '123456789':
            yield Unit('unsigned long f@(void) { return %s; }' % (d + '0' * (n - 1)), tag='len', maybe=True)
            yield Unit('unsigned long f@(void) { return %su; }' % (d * n), tag='len', maybe=True)
        for d in '123456789abcdefABCDEF':
            yield Unit('unsigned long f@(void) { return 0x%s; }' % (d + '0' * (n - 1)), tag='len', maybe=True)
            yield Unit('unsigned long f@(void) { return 0x%s; }' % (d * n), tag='len', maybe=True)
        for d in '1234567':
            yield Unit('unsigned long f@(void) { return 0%s; }' % (d + '0' * (n - 1)), tag='len', maybe=True)
            yield Unit('unsigned long f@(void) { return 0%s; }' % (d * n), tag='len', maybe=True)
    # in the places where a constant takes part in something else than an expression
    for w in ['0', '1', '7', '010', '0x10', '10u', '10L', '0xFFul', '017LL', '0X1fuLL', '25', '64', '0100']:
        yield Unit('int f@(void) { char a[%s]; return sizeof(a); }' % w, tag='dim', maybe=True)
        yield Unit('enum E@ { A@ = %s, B@ }; long f@(void) { return A@ * 1000 + B@; }' % w, tag='enum', maybe=True)
        yield Unit('int f@(int x) { switch (x) { case %s: return 1; case 99: return 2; } return 3; }' % w, [(i,) for i in range(0, 300)], tag='case', maybe=True)
        yield Unit('long g@ = %s; long f@(void) { return g@; }' % w, tag='global', maybe=True)
        yield Unit('int f@(void) { int a[70]; int i; for (i = 0; i < 70; i++) a[i] = i * 3; return a[%s]; }' % w, tag='index', maybe=True)


def part_v_ints(tier):
    chars = '0189aAfFxXuUlLgGeE_.'
    for w in strings(chars, 4 if tier == 'thorough' else 3):
        if w and w[0] in '0189.':
            yield 'unsigned long f(void) { return %s; }' % w, 'int spelling'
    for w in strings('uUlLxX0_1', 4 if tier != 'thorough' else 5):
        yield 'unsigned long f(void) { return 7%s; }' % w, 'suffix'
        if len(w) <= 3:
            yield 'unsigned long f(void) { return 0x7%s; }' % w, 'suffix hex'
            yield 'unsigned long f(void) { return 07%s; }' % w, 'suffix oct'
            yield 'unsigned long f(void) { return 0%s; }' % w, 'suffix zero'
    for c in map(chr, range(256)):
        for pre in ('7', '0', '0x7', '07', '7u', '7l', '7ul', '7ll', '7ull', '0x'):
            yield 'int f(void) { return %s%s; }' % (pre, c), 'after a constant'
            yield 'int f(int u, int l) { return %s%su; }' % (pre, c), 'after a constant'
    for v in ((1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, 1 << 65, 1 << 128, 10 ** 40):
        for s in SUFS:
            for w in spellings(v):
                yield 'unsigned long f(void) { return %s%s; }' % (w, s), 'large'


# ---- character constants and escapes
ESC = 'abfnrtv\\\'"?'


def part_chars(tier):
    for b in range(1, 256):
        c = chr(b)
        yield Unit("int f@(void) { return '%s'; }" % c, tag='byte', maybe=True)
        yield Unit("int f@(void) { char c = '%s'; return c; }" % c, tag='byte', maybe=True)
        yield Unit("char g@ = '%s'; int f@(void) { return g@; }" % c, tag='byte', maybe=True)
        yield Unit("int f@(void) { return '\\%s'; }" % c, tag='escape', maybe=True)
        yield Unit("int f@(void) { char *s = \"%s\"; return s[0]; }" % c, tag='sbyte', maybe=True)
        yield Unit("int f@(void) { char *s = \"x\\%sy\"; return s[0] * 10000 + s[1] * 100 + s[2]; }" % c, tag='sescape', maybe=True)
    for b in range(256):
        for e in ['\\x%x' % b, '\\x%02x' % b, '\\x%X' % b, '\\x0%x' % b, '\\x00%02X' % b, '\\%o' % b, '\\%03o' % b]:
            yield Unit("int f@(void) { return '%s'; }" % e, tag='num')
            yield Unit("int f@(void) { int n = sizeof(\"%s\"); char *s = \"%s\"; return s[0] * 100 + s[1] * 10 + n; }" % (e, e), tag='snum')
            yield Unit("int f@(void) { char *s = \"a%s\"; return s[0] * 1000 + s[1] * 100 + s[2]; }" % e, tag='snum')
    for e in strings('01789', 4):
        if e and (e[0] in '017'):
            yield Unit("int f@(void) { return sizeof(\"\\%s\"); }" % e, tag='oct len', maybe=True)
            yield Unit("int f@(void) { char *s = \"\\%sz\"; int n = 0; int h = 0; while (s[n] != 'z' && n < 6) h = h * 50 + s[n++]; return h * 10 + n; }" % e, tag='oct len', maybe=True)
    for e in strings('01fFg', 4):
        if e:
            yield Unit("int f@(void) { return sizeof(\"\\x%s\"); }" % e, tag='hex len', maybe=True)
            yield Unit("int f@(void) { char *s = \"\\x%s!\"; int n = 0; int h = 0; while (s[n] != '!' && n < 6) h = h * 50 + s[n++]; return h * 10 + n; }" % e, tag='hex len', maybe=True)
    # type of a character constant
    for c in ("'a'", "'\\0'", "'\\377'", "'\\x80'", "'\\''", "'\"'"):
        yield Unit('int f@(void) { return sizeof(%s); }' % c, tag='type')
        yield Unit('long f@(void) { return %s * 1000000 + 0l; }' % c, tag='type')
        for op in ('+', '-', '<', '==', '<<', '*'):
            yield Unit('long f@(void) { return %s %s \'A\'; }' % (c, op), tag='type')
    # all pairs of escapes and plain characters in a string
    items = ['a', '1', 'f', ' ', '\\n', '\\0', '\\\\', '\\"', "'", "\\'", '\\x1', '\\1', '\\12', '\\377', '\\?', '?', '%', '\\t', '\\a', '\\v', '/', '*', '\t']
    for k in (2, 3) if tier != 'thorough' else (2, 3, 4):
        for t in itertools.product(items if k < 3 else items[:14] if k == 3 else items[:12], repeat=k):
            s = ''.join(t)
            yield Unit('int f@(void) { char *s = "%s"; int n = sizeof("%s"); int h = n; int i; for (i = 0; i < n; i++) h = h * 31 + s[i]; return h; }' % (s, s), tag='combo', maybe=True)


def part_v_chars(tier):
    for w in strings("a0x'\"\\\n8f", 4 if tier != 'thorough' else 5):
        yield "int f(void) { return '%s; }" % w, 'char spelling'
        yield 'int f(void) { return "%s; }' % w, 'string spelling'
        if len(w) <= 3:
            yield "int f(void) { return '%s'; }" % w, 'char spelling'
            yield 'int f(void) { char *s = "%s"; return s[0]; }' % w, 'string spelling'
    for b in map(chr, range(256)):
        yield "int f(void) { return '%s'; }" % b, 'byte'
        yield "int f(void) { return '\\%s'; }" % b, 'escape'
        yield "int f(void) { return '\\x%s'; }" % b, 'xescape'
        yield 'int f(void) { char *s = "%s"; return *s; }' % b, 'byte'
        yield 'int f(void) { char *s = "\\%s"; return *s; }' % b, 'escape'
        yield 'int f(void) { char *s = "\\x%s"; return *s; }' % b, 'xescape'
        yield "int f(void) { return '%s" % b, 'cut'
        yield 'int f(void) { return "%s' % b, 'cut'
    for e in range(0o1000):
        yield "int f(void) { return '\\%03o'; }" % e, 'oct range'
    for e in list(range(0x1100)) + [0xffff, 0x10000, 0xffffffff, 1 << 32, 1 << 64, (1 << 64) + 65]:
        yield "int f(void) { return '\\x%x'; }" % e, 'hex range'


# ---- identifiers and keywords
IDCH = '_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
KW = sorted(refc.KEYWORDS)


def variants(w):
    yield w
    for i in range(len(w)):
        yield w[:i] + w[i + 1:]
        yield w[:i] + w[i].upper() + w[i + 1:]
        for c in 'a_0Z':
            yield w[:i] + c + w[i:]
            yield w[:i] + c + w[i + 1:]
    for c in IDCH:
        yield w + c
        yield c + w
    for v in KW:
        yield w + v
    yield w.upper()
    yield w.capitalize()


def part_ids(tier):
    seen = set()
    names = list(strings(IDCH, 2))
    for w in KW:
        names += variants(w)
    names += ['rax', 'eax', 'al', 'rsp', 'rip', 'st', 'mm0', 'byte', 'ptr', 'offset', 'main', 'printf', 'L1', 'l0', 'text', 'data', 'quad', 'L_1', 'f', 'v',
              'def', 'word', 'sp', 'dx', 'not', 'and', 'or', 'xor', 'mod', 'eq', 'ne', 'shl', 'shr', 'NULL', 'EOF', 'nop', 'ret', 'call', 'movl', 'asm', '__', '_0', '_Z1f']
    for n in names:
        if not n or n in seen or n[0].isdigit():
            continue
        seen.add(n)
        yield Unit('int f@(int p) { int %s = p; %s = %s + 1; return %s * 2; }' % (n, n, n, n), [(3,), (-8,)], tag='local', maybe=True)
        yield Unit('int f@(int %s) { return %s + 5; }' % (n, n), [(3,)], tag='param', maybe=True)
        yield Unit('struct S@ { int a; int %s; }; int f@(void) { struct S@ s; s.a = 3; s.%s = 4; return s.a * 10 + s.%s; }' % (n, n, n), tag='member', maybe=True)
    # names at file scope, one program each
    # identifiers that differ in one character, at every position, are different
    for L in ([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300] + ([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097] if tier == 'thorough' else [])):
        for pos in sorted({0, 1, 2, 3, 6, 7, 8, 14, 15, 16, 30, 31, 32, 61, 62, 63, 64, 126, 127, 128, 254, 255, 256, L - 2, L - 1}):
            if not 0 <= pos < L:
                continue
            a = 'q' * L
            for c in ('Q', 'r', '_', '0') if pos else ('Q', 'r', '_'):
                b = a[:pos] + c + a[pos + 1:]
                yield Unit('int f@(void) { int %s = 3; int %s = 5; %s += 10; return %s * 100 + %s; }' % (a, b, b, a, b), tag='differ')
                yield Unit('struct T@ { int %s; int %s; }; int f@(void) { struct T@ s; s.%s = 3; s.%s = 4; return s.%s * 10 + s.%s; }' % (a, b, a, b, a, b), tag='differ member')
                yield Unit('int u@%s = 3; int u@%s = 5; int f@(void) { u@%s += 10; return u@%s * 100 + u@%s; }' % (a, b, b, a, b), tag='differ global')
        yield Unit('int f@(void) { int %s = 3; int %s = 5; return %s * 100 + %s; }' % ('q' * L, 'q' * (L + 1), 'q' * L, 'q' * (L + 1)), tag='prefix')
        yield Unit('int u@%s(void) { return 3; } int u@%s(void) { return 5; } int f@(void) { return u@%s() * 100 + u@%s(); }' % ('q' * L, 'q' * (L + 1), 'q' * L, 'q' * (L + 1)), tag='prefix fn')


def part_v_ids(tier):
    seen = set()
    for w in KW:
        for n in variants(w):
            if n in seen or not n:
                continue
            seen.add(n)
            yield 'int %s; int %s2(void) { return %s; }' % (n, n, n), 'name'
            yield 'int f(void) { %s x; return 0; }' % n, 'word as a type'
            yield 'int f(int x) { %s (x) return 1; return 0; }' % n, 'word as a statement'
            yield 'int f(int x) { while (1) %s; return 0; }' % n, 'word as a jump'
            yield 'int f(int x) { return %s(x); }' % n, 'word as a call'
    for b in map(chr, range(256)):
        yield 'int a%s; int f(void) { return 1; }' % b, 'byte'
        yield 'int a%sb; int f(void) { return ab; }' % b, 'byte inside'
        yield 'int %sb; int f(void) { return b; }' % b, 'byte before'
        yield '%sint b; int f(void) { return b; }' % b, 'byte at the start'
        yield 'int b; int f(void) { return b; }%s' % b, 'byte at the end'


# ---- white space
PROGS = [
    'int f ( int a , int b ) { int c = a + b * 3 ; if ( a < b ) c ++ ; else c -= 2 ; return c ; }',
    'struct s { int m ; char n [ 3 ] ; } ; int f ( int a ) { struct s x ; struct s * p = & x ; p -> m = a ; x . n [ 1 ] = \'b\' ; return p -> m << 2 | x . n [ 1 ] ; }',
    'long f ( long a ) { long s = 0 ; for ( int i = 0 ; i < 5 ; i ++ ) { if ( i == 2 ) continue ; s += a >= i ? a : - i ; } return sizeof ( int ) + s ; }',
    'typedef unsigned int u ; enum e { A , B = 7 } ; u f ( u x ) { switch ( x ) { case 1 : return A ; case 2 : x = B ; break ; default : x = ~ x ; } while ( x > 9 ) x /= 2 ; return x ; }',
]
FARGS = [[(1, 2), (5, 3)], [(4,), (-9,)], [(2,), (-1,)], [(1,), (2,), (77,)]]


def rename(p):
    import re
    p = re.sub(r'\bf\b', 'f@', p)
    for n in ('struct s', 'enum e'):
        p = p.replace(n + ' ', n + '@ ')
    p = re.sub(r'\bu\b', 'u@', p)
    return re.sub(r'\b([AB])\b', r'\1@', p)


def part_space(tier):
    for p, args in zip(PROGS, FARGS):
        p = rename(p)
        toks = p.split(' ')
        for w in WS:
            yield Unit(w.join(toks), args, tag='all')
            yield Unit((w * 3).join(toks), args, tag='all3')
        for i in range(1, len(toks)):
            for w in WS + ['\n\n', ' \t\v\f\n', ' ' * 300, '\n' * 300]:
                yield Unit(' '.join(toks[:i]) + w + ' '.join(toks[i:]), args, tag='one')
        # no white space where two neighbours cannot run together
        for i in range(1, len(toks)):
            a, b = toks[i - 1][-1], toks[i][0]
            word = (a.isalnum() or a in '_@') and (b.isalnum() or b in '_@')
            if not word:
                yield Unit(' '.join(toks[:i]) + ' '.join(toks[i:]) if False else ' '.join(toks[:i]) + toks[i] + (' ' + ' '.join(toks[i + 1:]) if i + 1 < len(toks) else ''), args, tag='none', maybe=True)
        tight = toks[0]
        for i in range(1, len(toks)):
            a, b = toks[i - 1][-1], toks[i][0]
            word = (a.isalnum() or a in '_@') and (b.isalnum() or b in '_@')
            tight += (' ' if word or (a in '+-&|<>=' and b in '+-&|<>=*') else '') + toks[i]
        yield Unit(tight, args, tag='tight')
    # white space inside literals is kept
    for w in [' ', '\t', '\v', '\f']:
        for k in (1, 2, 5):
            yield Unit('int f@(void) { char *s = "a%sb"; int h = sizeof("a%sb"); int i; for (i = 0; s[i]; i++) h = h * 31 + s[i]; return h; }' % (w * k, w * k), tag='literal')
        yield Unit("int f@(void) { return '%s'; }" % w, tag='literal')


def part_v_bytes(tier):
    """every byte inserted at, or put in the place of, every position; every position deleted; every prefix"""
    for p in PROGS[:4] if tier == 'thorough' else PROGS[:2]:
        toks = p.split(' ')
        t = p
        for i in range(len(t) + 1):
            yield t[:i], 'prefix'
            yield t[:i] + t[i + 1:], 'delete'
            if tier == 'thorough':
                bs = range(256)
            else:
                bs = [b for b in range(256) if b < 128 or b in (128, 160, 173, 200, 255)]
            for b in bs:
                yield t[:i] + chr(b) + t[i:], 'insert'
                if i < len(t) and tier == 'thorough':
                    yield t[:i] + chr(b) + t[i + 1:], 'replace'
    for s in ['', ' ', '\n', '\t \n', ';', 'x', 'int', '0', '"', "'", '\x00', 'int x;\x00', '\x00int x;', '\xef\xbb\xbfint x;', 'int x;\x1a', '(', '}', '{}', 'int x; int']:
        yield s, 'tiny'
    for a in map(chr, range(256)):
        yield a, 'one byte'
    for a in (map(chr, range(1, 128))):
        for b in '+-<>=&|/*%"\'\\x0a.; \n#':
            yield a + b, 'two bytes'


# ---- long tokens
def part_long(tier):
    for n in [10, 100, 127, 128, 255, 256, 1000, 1023, 1024, 1025, 4095, 4096, 5000] + ([20000, 65535, 65536, 100000] if tier == 'thorough' else []):
        yield Unit('int f@(void) { int %s = 4; return %s + 1; }' % ('a' * n, 'a' * n), tag='long id')
        yield Unit('int f@(void) { return %s7; }' % ('0' * n), tag='long octal')
        yield Unit('int f@(void) { return 0x%s1f; }' % ('0' * n), tag='long hex')
        yield Unit('int f@(void) { return sizeof("%s"); }' % ('b' * n), tag='long string')
        yield Unit('int f@(void) { char *s = "%s"; return s[%d] * 1000 + s[%d]; }' % ('b' * (n - 1) + 'c', n - 1, n), tag='long string')
        yield Unit("int f@(void) { return '\\x%s41'; }" % ('0' * n), tag='long escape')
        yield Unit('int f@(void) { return %s1; }' % ('- ' * n) if n <= 1000 else 'int f@(void) { return 1; }', tag='many')


def part_v_sizes(tier):
    """sources of every length in a range and around powers of two, filled with white space before, between or after the tokens"""
    for good in ('int f(int a) { return a + 1; }', 'int f(int a) { return a + 1 }', 'int f(int a) { return a; } int g(void) { return y; }'):
        toks = good.split(' ')
        lens = set(range(len(good), 700))
        for k in range(9, 21 if tier == 'thorough' else 19):
            lens |= {(1 << k) + d for d in range(-3, 4)}
        for n in sorted(lens):
            w = ' ' * (n - len(good)) if n % 2 else '\n' * (n - len(good))
            for at in (0, 1, len(toks) // 2, len(toks) - 1, len(toks)):
                t = ' '.join(toks[:at]), ' '.join(toks[at:])
                src = (t[0] + ' ' + w + t[1]) if t[0] and t[1] else (t[0] + w + t[1])
                assert len(src) == n, (len(src), n)
                yield src, 'size'


BATCH = 200
PARTS = [('v:munch', part_v_munch), ('munch', part_munch), ('ints', part_ints), ('v:ints', part_v_ints), ('chars', part_chars),
         ('v:chars', part_v_chars), ('ids', part_ids), ('v:ids', part_v_ids), ('space', part_space), ('v:bytes', part_v_bytes),
         ('long', part_long), ('v:sizes', part_v_sizes)]
