"""Data layout: sizes, alignment inside aggregates, member offsets and element strides are those of the x86-64 ABI, and
writing one object or member never touches another."""
from harness import *
from gen import *

# member kinds: (declaration with % for the name, lvalue suffix to reach a scalar, scalar type)
M = {
    'c': ('char %s', '', 'char'),
    'i': ('int %s', '', 'int'),
    'u': ('unsigned int %s', '', 'unsigned int'),
    'l': ('long %s', '', 'long'),
    'U': ('unsigned long long %s', '', 'unsigned long long'),
    'p': ('char *%s', None, None),
    '3': ('char %s[3]', '[2]', 'char'),
    '2': ('int %s[2]', '[1]', 'int'),
    'm': ('char %s[2][3]', '[1][2]', 'char'),
    'n': ('struct N@ %s', '.b', 'char'),
    'N': ('struct L@ %s', '.b', 'long'),
    'a': ('struct N@ %s[2]', '[1].b', 'char'),
    'e': ('enum E@ %s', '', 'int'),
    'f': ('int (*%s)(int)', None, None),
    't': ('td@ %s', '', 'long'),
}
PRE = 'struct N@ { int a; char b; };\nstruct L@ { char a; long b; char c; };\nenum E@ { EA@, EB@ };\ntypedef long td@;\n'


def struct(kinds, name='S@'):
    return 'struct %s { %s };\n' % (name, ' '.join((M[k][0] % ('m%d' % i)) + ';' for i, k in enumerate(kinds)))


def part_offsets(tier):
    """all member lists: sizeof, and the offset of every member, for locals, globals, parameters by pointer and elements"""
    def body(kinds, how):
        n = len(kinds)
        if how == 'local':
            d, s, b = '', 'struct S@ s; char *b = (char *)&s;', 's.m%d'
        elif how == 'global':
            d, s, b = 'struct S@ g@;\n', 'char *b = (char *)&g@;', 'g@.m%d'
        elif how == 'arrow':
            d, s, b = 'struct S@ g@;\n', 'struct S@ *p = &g@; char *b = (char *)p;', 'p->m%d'
        else:
            d, s, b = '', 'struct S@ x[3]; int i = 1; char *b = (char *)(x + 1);', 'x[i].m%d'
        out = 'tv(sizeof(struct S@)); '
        for k in range(n):
            out += 'tv((char *)&%s - b); ' % (b % k)
        return PRE + struct(kinds) + d + 'int f@(void) { %s %s return sizeof(struct S@[3]); }' % (s, out)
    base = 'cilp3nN'
    for n in (1, 2, 3):
        for ks in itertools.product(base, repeat=n):
            for how in ['local', 'global', 'arrow', 'elem'] if n < 3 else ['local', 'elem']:
                yield Unit(body(ks, how), tag='offset')
    for ks in itertools.product('ci3lnN', repeat=4):
        yield Unit(body(ks, 'elem'), tag='offset4')
    for ks in itertools.product('cil', repeat=4):
        yield Unit(body(ks, 'local'), tag='offset4')
    for ks in itertools.product('cil', repeat=5):
        yield Unit(body(ks, 'arrow'), tag='offset5')
    for k in M:
        for o in 'cl':
            for ks in [(k,), (o, k), (k, o), (o, k, o), (k, k), (o, k, k)]:
                for how in ['local', 'global', 'arrow', 'elem']:
                    yield Unit(body(ks, how), tag='offset-kind')
    if tier == 'thorough':
        for ks in itertools.product('cil3', repeat=5):
            yield Unit(body(ks, 'local'), tag='offset5t')
        for ks in itertools.product('ci3lnN', repeat=4):
            yield Unit(body(ks, 'global'), tag='offset4t')
        for ks in itertools.product('cil', repeat=7):
            yield Unit(body(ks, 'global'), tag='offset7t')


def part_compose(tier):
    """members of every composition of arrays and structures over every scalar: sizes, offsets and the place of the last scalar"""
    scal = {'char': 'char %s', 'int': 'int %s', 'long': 'long %s', 'unsigned int': 'unsigned int %s', 'ptr': 'char *%s', 'fptr': 'int (*%s)(int)', 'enum': 'enum E@ %s', 'td': 'td@ %s'}
    dims = ['', '[1]', '[2]', '[3]', '[2][3]', '[3][1]', '[1][2][2]']
    n = 0
    for (sn, sd), d0, d1, d2 in itertools.product(scal.items(), dims, dims if tier == 'thorough' else ['', '[2]', '[2][2]'], ['-', '', '[2]', '[2][1]']):
        def last(d):
            return ''.join('[%d]' % (int(x) - 1) for x in d.strip('[]').split('][')) if d else ''
        def dcl(d, nm):
            return sd % (nm + d)
        for lead, trail in itertools.product(['', 'char x; ', 'int x; ', 'char x[3]; ', 'long x; '] if tier == 'thorough' else ['', 'char x; ', 'char x[5]; '], ['', 'char y; ']):
            # a: array of scalars; A: structure holding it; B: structure holding an array of A; (C: structure holding an array of B)
            out = PRE + 'struct A@ { %s%s; %s};\nstruct B@ { %sstruct A@ q%s; %s};\n' % (lead, dcl(d0, 'm'), trail, lead or 'char x; ', d1, trail)
            path = '.q%s.m%s' % (last(d1), last(d0))
            top = 'B@'
            if d2 != '-':
                out += 'struct C@ { %sstruct B@ r%s; %s};\n' % (lead, d2, trail)
                path = '.r%s%s' % (last(d2), path)
                top = 'C@'
            how = n % 3
            n += 1
            st = {0: 'struct %s s; struct %s *p = &s;', 1: 'struct %s *p = g@;', 2: 'struct %s s[2]; struct %s *p = s + 1;'}[how]
            st = st.replace('%s', top)
            if how == 1:
                out += 'struct %s g@[2];\n' % top
            out += 'int f@(void) { %s char *b = (char *)p; tv(sizeof(struct A@)); tv(sizeof(struct B@)); tv(sizeof(struct %s)); tv((char *)&(*p)%s - b); tv((char *)&p->%s - b); tv(sizeof (*p)%s); tv((char *)(p + 1) - b); return 0; }' % (
                st, top, path, path[1:], path)
            yield Unit(out, tag='compose')


def part_bytes(tier):
    """the bytes of an aggregate: each member store changes exactly the member's bytes (little endian)"""
    for n in (1, 2, 3):
        for ks in itertools.product('cil3n', repeat=n):
            acc = [(i, M[k][1], M[k][2]) for i, k in enumerate(ks)]
            for how in ('local', 'global'):
                d = 'struct S@ g@;\n' if how == 'global' else ''
                s = 'struct S@ *p = &g@;' if how == 'global' else 'struct S@ s; struct S@ *p = &s;'
                st = ''
                for i, suf, t in acc:
                    st += 'for (k = 0; k < sizeof(struct S@); k++) b[k] = 100; p->m%d%s = %s; for (k = 0; k < sizeof(struct S@); k++) tv(b[k]); tvl(p->m%d%s); ' % (
                        i, suf, lit(t, {'char': -2, 'int': -0x01020304, 'long': 0x0102030405060708}[t]), i, suf)
                yield Unit(PRE + struct(ks) + d + 'int f@(void) { %s char *b = (char *)p; int k; %s return 0; }' % (s, st), tag='bytes')
    for t in TYPES:
        for v in VALS[t][::3]:
            yield Unit('int f@(%s a) { char *b = (char *)&a; int k; for (k = 0; k < sizeof a; k++) tv(b[k]); return 0; }' % t, [(v,)], tag='bytes-scalar')
            yield Unit('%s g@; int f@(%s a) { char *b = (char *)&g@; int k; g@ = a; for (k = 0; k < sizeof g@; k++) tv(b[k]); return 0; }' % (t, t), [(v,)], tag='bytes-global')
            yield Unit('int f@(%s a) { %s m[3]; char *b = (char *)m; int k; for (k = 0; k < sizeof m; k++) b[k] = 85; m[1] = a; '
                       'for (k = 0; k < sizeof m; k++) tv(b[k]); return 0; }' % (t, t), [(v,)], tag='bytes-elem')
            # and the other way: values put together from bytes
            yield Unit('int f@(%s a) { %s x; char *b = (char *)&x; char *c = (char *)&a; int k; for (k = 0; k < sizeof x; k++) b[k] = c[k]; return x == a; }' % (t, t),
                       [(v,)], tag='bytes-back')


def part_sizeof(tier):
    types = ['char', 'int', 'unsigned int', 'unsigned', 'long', 'long int', 'unsigned long', 'long long', 'long long int', 'unsigned long long',
             'unsigned long int', 'unsigned long long int', 'int *', 'char *', 'void *', 'char **', 'struct N@', 'struct L@', 'struct N@ *', 'enum E@', 'td@', 'td@ *',
             'int (*)(int)', 'void (*)(void)', 'char (*)[5]', 'int (*)[3]', 'int *(*)(char *, long)', 'struct N@ (*)[2]']
    for t in types:
        yield Unit(PRE + 'int f@(void) { return sizeof(%s); }' % t, tag='sizeof')
        for d in ['[1]', '[3]', '[7]', '[2][3]', '[1][1][5]', '[16]', '[300]']:
            ty = t + ' ' + d if '(*' not in t else t.replace('(*', '(*' + d, 1)
            yield Unit(PRE + 'int f@(void) { return sizeof(%s); }' % ty, tag='sizeof-array')
            v = (t + ' v' + d) if '(*' not in t else t.replace('(*', '(*v' + d, 1)
            yield Unit(PRE + 'int f@(void) { %s; return sizeof v * 1000 + sizeof(v[0]) * 10 + sizeof(&v) + sizeof(*v); }' % v, tag='sizeof-var')
            vg = (t + ' v@' + d) if '(*' not in t else t.replace('(*', '(*v@' + d, 1)
            yield Unit(PRE + '%s; int f@(void) { return sizeof v@ * 1000 + sizeof(v@[0]) * 10 + sizeof(&v@) + sizeof(*v@) + sizeof(v@ + 0); }' % vg, tag='sizeof-gvar')
    # expressions: the operand is not evaluated, its type is that after the usual conversions
    for a in TYPES:
        for op in ARITH + BIT + SHIFT + CMP + LOGIC:
            for b in TYPES:
                yield Unit('int f@(void) { %s a = 1; %s b = 1; return sizeof(a %s b); }' % (a, b, op), tag='sizeof-binary')
        for e in ['-a', '~a', '!a', '+a', 'a++', '--a', '(a)', 'a = 3', 'a += 1l', '(char)a', '(long)a', '&a', '*&a', '1 ? a : a', '1 ? a : 1', '1 ? a : 1l', 'a << 1l']:
            yield Unit('int f@(void) { %s a = 1; int r = sizeof(%s); tv(a); return r; }' % (a, e), tag='sizeof-unary')
    for e in ["'a'", '1', '1u', '1l', '1ul', '1ll', '1ull', '2147483647', '2147483648', '4294967295u', '4294967296u', '0x7fffffff', '0x80000000', '0xffffffff', '0x100000000',
              '017777777777', '020000000000', '037777777777', '040000000000', '9223372036854775807', '0x7fffffffffffffff', '0xffffffffffffffff',
              '"abc"', '""', '"a\\0b"', '"abc"[0]', '*"abc"', '&"abc"[1]', 'g@', 'g@(1)', '&g@', 'g@(g@(1))', 's', 's.a', 's.b', '&s', 'p->a', '*p', 'p[1].b', 'p + 1', 'p - p',
              'p == p', 'm', 'm[1]', 'm[1][2]', '*m', '**m', '&m', '&m[1]', 'm + 1', 'sizeof(int)', 'sizeof(sizeof(char))', 'EA@', 'q', '*q', 'q(1)', '(*q)(1)', 'q == g@']:
        if e in ('g@', '*q'):
            continue
        yield Unit(PRE + 'long g@(int a) { tv(77); return a; }\nint f@(void) { struct N@ s; struct N@ *p = &s; int m[2][3]; long (*q)(int) = g@; return sizeof(%s) + 0 * (p == &s) + 0 * (q == g@); }' % e,
                   finding='sizeof-type:' + e if e.startswith('sizeof') else None, tag='sizeof-expr')


def part_isolation(tier):
    """objects do not overlap: store a pattern in each and read all back"""
    kinds = ['char %s', 'int %s', 'long %s', 'char %s[3]', 'int %s[2]', 'struct N@ %s', 'char *%s', 'struct L@ %s', 'char %s[1]', 'long %s[2]', 'char %s[17]']
    def fill(v, k):
        return 'b = (char *)&%s; for (i = 0; i < sizeof %s; i++) b[i] = %d; ' % (v, v, k)
    def dump(v):
        return 'b = (char *)&%s; for (i = 0; i < sizeof %s; i++) tv(b[i]); ' % (v, v)
    for n in (1, 2, 3):
        for ks in itertools.product(kinds if n < 3 else kinds[:6], repeat=n):
            vs = ['v%d' % i for i in range(n)]
            loc = ' '.join(k % v + ';' for k, v in zip(ks, vs))
            ops = ''.join(fill(v, i + 1) for i, v in enumerate(vs)) + ''.join(dump(v) for v in vs)
            yield Unit(PRE + 'int f@(int a) { char *b; int i; %s %s return a; }' % (loc, ops), [(5,)], tag='iso-local')
            if n < 3 or tier == 'thorough':
                yield Unit(PRE + ' '.join(k % ('v%d@' % i) + ';' for i, k in enumerate(ks)) + '\nint f@(int a) { char *b; int i; %s return a; }' % (
                    ''.join(fill('v%d@' % i, i + 1) for i in range(n)) + ''.join(dump('v%d@' % i) for i in range(n))), [(5,)], tag='iso-global')
                yield Unit(PRE + 'int f@(int a, char c, long l) { char *b; int i; { %s %s } { %s %s } tv(a); tv(c); tv(l); return a; }' % (
                    loc, ops, ' '.join(k % v + ';' for k, v in reversed(list(zip(ks, vs)))), ops), [(5, 6, 7)], tag='iso-block')
    # parameters and locals
    for n in range(0, 10):
        for T in ['char', 'int', 'long']:
            ps = ', '.join('%s a%d' % (T, i) for i in range(n)) or 'void'
            for k in range(0, 5):
                ls = ' '.join('%s l%d = %d;' % (T, i, 50 + i) for i in range(k))
                ws = ' '.join('a%d = a%d + 1;' % (i, i) for i in range(n)) + ' '.join('l%d = l%d - 1;' % (i, i) for i in range(k))
                yield Unit('int f@(%s) { char z[5]; int i; %s for (i = 0; i < 5; i++) z[i] = i; %s %s for (i = 0; i < 5; i++) tv(z[i]); return 0; }' % (
                    ps, ls, ws, ' '.join('tvl(a%d);' % i for i in range(n)) + ' '.join('tvl(l%d);' % i for i in range(k))), [tuple(range(10, 10 + n))], tag='iso-params')
    # shadowing blocks and sibling blocks
    for d in range(1, 8):
        pre = ''.join('{ int x = %d; char y[%d]; y[0] = %d; y[%d] = %d; ' % (i, i + 1, i, i, i + 30) for i in range(d))
        post = ''.join('tv(x); tv(y[0]); tv(y[%d]); } ' % (d - 1 - i) for i in range(d))
        yield Unit('int f@(void) { int x = 99; %s %s tv(x); return x; }' % (pre, post), tag='iso-nest')


def part_stride(tier):
    """element strides of arrays of every element type, one to three dimensions, by subscript and by pointer arithmetic"""
    for k, (decl, suf, t) in M.items():
        for dims in ['[2]', '[3]', '[2][3]', '[3][2]', '[2][2][2]', '[1][4]']:
            base = decl % 'v'
            if '[' in base:
                base = base.replace('v', 'v' + dims, 1) if base.count('v') == 1 else base
            elif '(*v)' in base:
                base = base.replace('(*v)', '(*v%s)' % dims)
            else:
                base += dims
            ds = [int(x) for x in dims.strip('[]').split('][')]
            out = ''
            for ix in itertools.product(*[range(d) for d in ds]):
                sub = ''.join('[%d]' % i for i in ix)
                out += 'tv((char *)&v%s - b); ' % sub
            for d in range(len(ds)):
                sub = '[1]' * d if all(x > 1 for x in ds[:d]) else '[0]' * d
                out += 'tv(sizeof v%s); tv((char *)(&v%s + 1) - b); tv((char *)(v%s + 1) - b); ' % (sub, sub, sub)
            for how in ('local', 'global'):
                g = base.replace('v', 'v', 1)
                if how == 'local':
                    yield Unit(PRE + 'int f@(void) { %s; char *b = (char *)&v; %s return 0; }' % (base, out), tag='stride')
                else:
                    import re
                    gb = re.sub(r'\bv\b', 'v@', base)
                    yield Unit(PRE + '%s;\nint f@(void) { char *b = (char *)&v@; %s return 0; }' % (gb, re.sub(r'\bv\b', 'v@', out)), tag='stride-global')


def part_odd(tier):
    """structures of up to 20 members, all of one kind but one (or two), which stands at every position: offsets, size, stride, and the place inside other objects"""
    K = 'cil3nNm' + ('p2aU' if tier == 'thorough' else '')
    for n in range(2, 21):
        for a, b in itertools.permutations(K, 2):
            for k in range(n):
                ks = [a] * n
                ks[k] = b
                if n > 3 and (k + n) % 3 == 0:
                    ks[(k + n // 2) % n] = 'c' if 'c' not in (a, b) else 'l' if 'l' not in (a, b) else 'i'
                off = ' '.join('tv((char *)&x[1].m%d - (char *)x);' % i for i in range(n))
                yield Unit(PRE + struct(ks) + 'struct O@ { char c; struct S@ s; char d; }; struct R@ { struct S@ s[2]; char d; };\nint f@(void) { struct S@ x[2]; struct O@ o; struct R@ r[2]; int y[2]; %s '
                           'tv(sizeof(struct S@)); tv(sizeof o); tv((char *)&o.s - (char *)&o); tv((char *)&o.d - (char *)&o); tv(sizeof r); tv((char *)&r[1].s[1] - (char *)r); y[0] = 5; o.c = 6; o.d = 7; r[1].d = 8; tv(y[0] + o.c + o.d + r[1].d); return 0; }' % off, tag='odd')


def part_scale(tier):
    for n in list(range(1, 40)) + [64, 65, 100, 127, 128, 129, 255, 256, 257, 300]:
        yield Unit('struct S@ { %s };\nint f@(void) { struct S@ s; struct S@ *p = &s; char *b = (char *)p; tv((char *)&s.m%d - b); tv((char *)&p->m%d - b); return sizeof s; }' % (
            ' '.join('%s m%d;' % (['char', 'int', 'char', 'long', 'char'][i % 5], i) for i in range(n)), n - 1, n // 2), tag='many-members')
        yield Unit('int f@(int a) { %s return %s; }' % (' '.join('char v%d = a + %d;' % (i, i % 50) for i in range(n)), ' + '.join('v%d' % i for i in range(n))), [(5,)], tag='many-locals')
        yield Unit('int f@(int a) { long m[%d]; int i; for (i = 0; i < %d; i++) m[i] = i * 3; tvl(m[%d]); return m[%d] + m[0]; }' % (n, n, n - 1, n // 2), [(5,)], tag='big-array')
        yield Unit('%s int f@(void) { return %s; }' % (' '.join('char g@_%d = %d;' % (i, i % 100) for i in range(n)), ' + '.join('g@_%d' % i for i in range(n))), tag='many-globals')
        if n < 40:
            yield Unit(''.join('struct S@_%d { char c; %s };\n' % (i, 'struct S@_%d s;' % (i - 1) if i else 'int x;') for i in range(n)) +
                       'int f@(void) { struct S@_%d s; s%s.x = 5; tv(s%s.x); return sizeof s; }' % (n - 1, '.s' * (n - 1), '.s' * (n - 1)), tag='deep-struct')
    for n in [1000, 4095, 4096, 4097, 5000, 10000, 20000, 32767, 32768, 65535, 65536, 65537, 100000]:
        yield Unit('int f@(int a) { char m[%d]; m[0] = 1; m[%d] = 2; m[a] = 3; return m[0] * 100 + m[%d] * 10 + m[a]; }' % (n, n - 1, n - 1), [(n // 2,)], tag='huge-local')
        yield Unit('char g@[%d]; int h@ = 9; int f@(int a) { g@[0] = 1; g@[%d] = 2; g@[a] = 3; return g@[0] * 1000 + g@[%d] * 100 + g@[a] * 10 + h@; }' % (n, n - 1, n - 1), [(n // 2,)], tag='huge-global')
        yield Unit('int f@(int a) { int x = a; char m[%d]; int y = a + 1; long z = a + 2; m[0] = 1; m[%d] = 2; return x * 100 + y * 10 + z + m[0] + m[%d]; }' % (n, n - 1, n - 1), [(5,)], tag='far-local')
        if n <= 40000:
            yield Unit('struct S@ { char pad[%d]; int x; char y; }; int f@(int a) { struct S@ s; struct S@ t[2]; s.x = a; s.y = 2; t[0].x = 3; t[1].x = a + 4; t[1].y = 5; tv(s.x); tv(s.y); tv(t[0].x); tv(t[1].x); tv((char *)&t[1].y - (char *)t); return t[a - 4].y; }' % n, [(5,)], tag='far-member')
        yield Unit('struct S@ { char pad[%d]; int x; };\nstruct S@ g@; int f@(int a) { struct S@ *p = &g@; p->x = a; return g@.x + sizeof(struct S@); }' % n, [(5,)], tag='huge-offset')


PARTS = [('offsets', part_offsets), ('odd', part_odd), ('compose', part_compose), ('bytes', part_bytes), ('sizeof', part_sizeof), ('isolation', part_isolation), ('stride', part_stride), ('scale', part_scale)]
