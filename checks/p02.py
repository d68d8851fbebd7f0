"""Conversions: every context in which C converts a value, every ordered pair of types, boundary values; stores touch
exactly the object's bytes."""
from harness import *
from gen import *

# values that distinguish truncation / extension / "is it zero" mistakes for a source type
def cv(t):
    o = TOBJ[t]
    vs = list(VALS[t]) + [0x100, 0x10000, 0x80, 0x8000, 0x1ff, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 40, -(1 << 32),
                          0x7fffffff80, 0xff00000000, 0xffffff7f]
    return list(dict.fromkeys(v for v in vs if o.lo <= v <= o.hi))


PT = TYPES
ENUMS = ['enum E@', 'enum G@', 'TD@']
EPRE = 'enum E@ { EA@, EB@ = 3 }; enum G@ { GA@ = 7 }; typedef enum E@ TD@;\n'


def part_contexts(tier):
    """s: source type, d: destination type"""
    for s in TYPES + ENUMS:
        vs = [(v,) for v in cv(s if s in TYPES else 'int')]
        for d in TYPES + ENUMS:
            D = dict(s=s, d=d)
            pre = EPRE if s in ENUMS or d in ENUMS else ''
            P = [
                # (tag, source)
                ('init', 'long f@(%(s)s a) { %(d)s x = a; return x; }'),
                ('assign', 'long f@(%(s)s a) { %(d)s x; x = a; return x; }'),
                ('assign-value', 'long f@(%(s)s a) { %(d)s x; long r; r = (x = a); return r; }'),
                ('chain', 'long f@(%(s)s a) { long r; %(d)s x; %(s)s y; r = x = y = a; return r + (x == y); }'),
                ('cast', 'long f@(%(s)s a) { return (%(d)s)a; }'),
                ('cast-cond', 'int f@(%(s)s a) { if ((%(d)s)a) return 1; return 0; }'),
                ('cast-not', 'int f@(%(s)s a) { return !(%(d)s)a; }'),
                ('cast-shift', 'unsigned long f@(%(s)s a) { return (%(d)s)a >> 1; }'),
                ('cast-div', 'unsigned long f@(%(s)s a) { return (%(d)s)a / 3; }'),
                ('return', '%(d)s g@(%(s)s a) { return a; }\nlong f@(%(s)s a) { return g@(a); }'),
                ('argument', 'long g@(%(d)s a) { return a; }\nlong f@(%(s)s a) { return g@(a); }'),
                ('argument7', 'long g@(int p, int q, int r, int s, int t, int u, %(d)s a, char z) { return a + z; }\n'
                 'long f@(%(s)s a) { return g@(1, 2, 3, 4, 5, 6, a, 7); }'),
                ('global', '%(d)s h@;\nlong f@(%(s)s a) { h@ = a; return h@; }'),
                ('elem', 'long f@(%(s)s a) { %(d)s x[3]; x[0] = 1; x[2] = 2; x[1] = a; return x[1] + x[0] * 3 + x[2] * 5; }'),
                ('member', 'struct S@ { char p; %(d)s m; char q; };\n'
                 'long f@(%(s)s a) { struct S@ x; x.p = 1; x.q = 2; x.m = a; return x.m + x.p * 3 + x.q * 5; }'),
                ('deref', 'long f@(%(s)s a) { %(d)s x; %(d)s *p = &x; *p = a; return x; }'),
                ('cond-operand', 'long f@(%(s)s a) { %(d)s b = 1; return a ? a : b; }'),
                ('cond-operand2', 'long f@(%(s)s a) { %(d)s b = 1; return a ? b : a; }'),
                ('compare', 'int f@(%(s)s a) { %(d)s b = 1; return (a < b) + 2 * (a > b) + 4 * (b <= a) + 8 * (b == a); }'),
                ('fnptr-arg', 'long g@(%(d)s a) { return a; }\nlong f@(%(s)s a) { long (*p)(%(d)s) = &g@; return p(a); }'),
                ('fnptr-ret', '%(d)s g@(%(s)s a) { return a; }\nlong f@(%(s)s a) { %(d)s (*p)(%(s)s); p = g@; return (*p)(a); }'),
                ('list', 'long f@(%(s)s a) { %(d)s x[3] = {1, a, 2}; return x[1] + x[0] * 3 + x[2] * 5; }'),
                ('slist', 'struct S@ { char p; %(d)s m; char q; };\n'
                 'long f@(%(s)s a) { struct S@ x = {1, a, 2}; return x.m + x.p * 3 + x.q * 5; }'),
                ('typedef', 'typedef %(d)s T@;\nlong f@(%(s)s a) { T@ x = a; return (T@)a + x; }'),
            ]
            for tag, src in P:
                yield Unit(pre + src % D, vs, tag=tag)


def part_cond(tier):
    """a scalar is true exactly when it is not zero: values whose low bits are zero, in every condition context"""
    for s in TYPES:
        vs = [(v,) for v in cv(s)]
        E = ['a', '(a)', 'a + 0', '(a = a)', '-a', '+a', '~a', 'a & -2', 'a | 0', 'a ^ a', 'a - 1', '*&a', 'a << 1',
             'a >> 1', 'a * 2', '(a ? a : 0)', 'a % 2', 'a / 2', 'a == 0', 'a != 0', 'a < 1', 'a >= 0', '!a', '!!a',
             'a && a', 'a || 0', '(char)a', '(int)a', '(unsigned)a', '(long)a']
        for e in E:
            for tag, src in [
                ('if', 'int f@(%s a) { if (%s) return 1; return 0; }'),
                ('ifelse', 'int f@(%s a) { int r; if (%s) r = 1; else r = 2; return r; }'),
                ('while', 'int f@(%s a) { int n = 0; while (%s) { n++; if (n == 2) break; } return n; }'),
                ('for', 'int f@(%s a) { int n; for (n = 0; %s; n++) { if (n == 2) return 9; } return n; }'),
                ('and', 'int f@(%s a) { return (%s) && 1; }'),
                ('and2', 'int f@(%s a) { return 1 && (%s); }'),
                ('or', 'int f@(%s a) { return (%s) || 0; }'),
                ('or2', 'int f@(%s a) { return 0 || (%s); }'),
                ('not', 'int f@(%s a) { return !(%s); }'),
                ('cond', 'int f@(%s a) { return (%s) ? 3 : 4; }'),
                ('ifand', 'int f@(%s a) { if ((%s) && a) return 1; return 0; }'),
                ('ifnot', 'int f@(%s a) { if (!(%s)) return 1; return 0; }'),
            ]:
                yield Unit(src % (s, e), vs, tag='cond ' + tag)
    # pointers as conditions
    for tag, body in [('if', 'if (p) return 1; return 0;'), ('not', 'return !p;'), ('and', 'return p && 1;'),
                      ('or', 'return 0 || p;'), ('cond', 'return p ? 3 : 4;'),
                      ('while', 'int n = 0; while (p) { n++; if (n > 2) break; } return n;')]:
        for t in TYPES:
            yield Unit('int f@(void) { %s x; %s *p = &x; %s }' % (t, t, body), tag='ptrcond')


def part_compound(tier):
    """E1 op= E2: computed in the common type, then converted back"""
    ops = ['+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '&=', '|=', '^=']
    for d in TYPES:
        for s in TYPES:
            for op in ops:
                vb = [v for v in (SV if tier != 'thorough' else VALS)[s]]
                if op in ('<<=', '>>='):
                    vb = vals_for(op, 1, s, SV)
                cs = pairs(SV[d] if tier != 'thorough' else VALS[d], vb)
                yield Unit('long f@(%s a, %s b) { a %s b; return a; }' % (d, s, op), cs, tag='compound ' + op)
                cs2 = pairs(TV[d] + [5], vb[:5])
                yield Unit('long f@(%s a, %s b) { long r; r = (a %s b); return r; }' % (d, s, op), cs2, tag='compound-value')
                yield Unit('%s h@;\nlong f@(%s a, %s b) { h@ = a; h@ %s b; return h@; }' % (d, d, s, op), cs2,
                           tag='compound-global')
                yield Unit('struct S@ { char p; %s m; char q; };\nlong f@(%s a, %s b) { struct S@ x; struct S@ *y = &x; '
                           'x.p = 3; x.q = 4; x.m = a; y->m %s b; return x.m + x.p * 3 + x.q * 5; }' % (d, d, s, op), cs2,
                           tag='compound-member')
                yield Unit('long f@(%s a, %s b) { %s x[3]; int i = 1; x[0] = 3; x[2] = 4; x[i] = a; x[i] %s b; '
                           'return x[1] + x[0] * 3 + x[2] * 5; }' % (d, s, d, op), cs2, tag='compound-elem')


def part_incdec(tier):
    lv = [('local', '', '', 'x'), ('global', '%s h@;\n', 'h@ = x;', 'h@'), ('elem', '', '%s e[3]; int i = 1; e[0] = 3; '
          'e[2] = 4; e[1] = x;', 'e[i]'), ('deref', '', '%s *p = &x;', '*p'),
          ('member', 'struct S@ { char p; %s m; char q; };\n', 'struct S@ s; s.p = 1; s.q = 2; s.m = x;', 's.m'),
          ('arrow', 'struct S@ { char p; %s m; char q; };\n', 'struct S@ s; struct S@ *z = &s; s.p = 1; s.q = 2; z->m = x;',
           'z->m')]
    for t in TYPES:
        for name, g, setup, e in lv:
            chk = {'elem': 'e[0] * 7 + e[2]', 'member': 's.p * 7 + s.q', 'arrow': 's.p * 7 + s.q'}.get(name, '0')
            for form in ['++%s', '--%s', '%s++', '%s--']:
                gg = g % t if '%s' in g else g
                ss = setup % t if '%s' in setup else setup
                for use in ['long r = %s; return r * 3 + %s + (%s) * 1000;', '%s; return %s + (%s) * 1000;',
                            'long r = 1 + (%s) * 2; return r - %s + (%s) * 1000;',
                            'if (%s) return %s; return 77 + (%s);',
                            'long r = tl(%s); return r + %s + (%s);']:
                    yield Unit('%slong f@(%s x) { %s %s }' % (gg, t, ss, use % (form % e, e, chk)),
                               [(v,) for v in VALS[t]], tag='incdec ' + name)


def part_width(tier):
    """stores write exactly the bytes of the object: neighbours keep their values (all struct shapes up to 3 members,
    all array neighbours), for assignment, compound assignment, ++ and initialisation"""
    ts = ['char', 'int', 'long', 'unsigned int', 'unsigned long']
    for T in itertools.product(ts, repeat=3):
        ms = ' '.join('%s m%d;' % (t, i) for i, t in enumerate(T))
        for k in range(3):
            oth = [i for i in range(3) if i != k]
            for tag, st in [('=', 's.m%d = v;'), ('arrow=', 'p->m%d = v;'), ('+=', 's.m%d += v;'), ('++', 'p->m%d++;'),
                            ('--', '--s.m%d;'), ('lit', 's.m%d = -3;')]:
                yield Unit('struct S@ { %s };\nlong f@(%s v) { struct S@ s; struct S@ *p = &s; s.m%d = -1; s.m%d = -1; '
                           's.m%d = 5; %s return s.m%d * 3 + (s.m%d == (%s)-1) * 1000 + (s.m%d == (%s)-1) * 2000; }' % (
                               ms, T[k], oth[0], oth[1], k, st % k, k, oth[0], T[oth[0]], oth[1], T[oth[1]]),
                           [(v,) for v in TV[T[k]]], tag='neighbour ' + tag)
    for t in TYPES:
        for n in (2, 3, 5):
            for i in range(n):
                ini = ' '.join('a[%d] = -1;' % j for j in range(n))
                chk = ' + '.join('(a[%d] == (%s)-1) * %d' % (j, t, 100 << j) for j in range(n) if j != i)
                for tag, st in [('=', 'a[%d] = v;'), ('+=', 'a[%d] += v;'), ('++', 'a[%d]++;'), ('p', '*(p + %d) = v;'),
                                ('q', 'p[%d] -= v;')]:
                    yield Unit('long f@(%s v) { %s a[%d]; %s *p = a; %s %s return a[%d] + %s; }' % (
                        t, t, n, t, ini, st % i, i, chk), [(v,) for v in TV[t]], tag='neighbour elem')
        # neighbouring locals and globals
        for tag, st in [('=', 'b = v;'), ('+=', 'b += v;'), ('++', 'b++;'), ('--', '--b;')]:
            yield Unit('long f@(%s v) { char a = 11; %s b = 3; char c = 12; int d = 13; %s return b + a * 1000 + c * 5000 '
                       '+ d * 70000; }' % (t, t, st), [(v,) for v in TV[t]], tag='neighbour local')
            yield Unit('char a@; %s b@; char c@; int d@;\nlong f@(%s v) { a@ = 11; b@ = 3; c@ = 12; d@ = 13; %s return b@ + a@ '
                       '* 1000 + c@ * 5000 + d@ * 70000; }' % (t, t, st.replace('b', 'b@')), [(v,) for v in TV[t]],
                       tag='neighbour global')


def part_subscript(tier):
    """subscripts and pointer offsets of every integer type"""
    for t in TYPES:
        for e in ['char', 'int', 'long']:
            for src in ['long f@(%s i) { %s a[9]; int k; for (k = 0; k < 9; k++) a[k] = 10 + k; return a[i]; }',
                        'long f@(%s i) { %s a[9]; int k; for (k = 0; k < 9; k++) a[k] = 10 + k; return *(a + i); }',
                        'long f@(%s i) { %s a[9]; int k; for (k = 0; k < 9; k++) a[k] = 10 + k; return *(i + a); }',
                        'long f@(%s i) { %s a[9]; int k; for (k = 0; k < 9; k++) a[k] = 10 + k; return *(&a[8] - i); }',
                        'long f@(%s i) { %s a[9]; int k; for (k = 0; k < 9; k++) a[k] = 10 + k; a[i] = 3; return a[0] + a[1] * 2 + a[i] + a[8]; }']:
                yield Unit(src % (t, e), [(v,) for v in range(9)], tag='subscript')
            if TOBJ[t].lo < 0:
                yield Unit('long f@(%s i) { %s a[9]; %s *p = a + 4; int k; for (k = 0; k < 9; k++) a[k] = 10 + k; return p[i]; }' % (t, e, e),
                           [(v,) for v in range(-4, 5)], tag='subscript-neg')
                yield Unit('long f@(%s i) { %s a[9]; %s *p = a + 4; int k; for (k = 0; k < 9; k++) a[k] = 10 + k; return *(p - i); }' % (t, e, e),
                           [(v,) for v in range(-4, 5)], tag='subscript-neg')


def part_switch(tier):
    """the controlling expression is promoted, labels are converted to its type"""
    for t in TYPES:
        for lab in [0, 1, 5, 127, 255, 256, 65535, 0x7fffffff]:
            yield Unit('int f@(%s a) { switch (a) { case %d: return 1; case 2: return 2; default: return 3; } }' % (t, lab),
                       [(v,) for v in cv(t) + [lab if TOBJ[t].lo <= lab <= TOBJ[t].hi else 0, 2]], tag='switch')


LITS = ['0', '1', '127', '128', '255', '256', '32768', '65536', '2147483647', '2147483648', '4294967295', '4294967296', '4294967297', '6442450944', '8589934591', '1099511627776', '1099511627903',
        '9223372036854775807', '9223372034707292160', '0x80000000', '0xffffffff', '0x100000080', '0xffffffff00000001', '0xffffffff80000000', '0xffffffff7fffffff', '0xffffffff00000000', '0x8000000000000000', '0xffffffffffffffff', '0x7fffffffffffff80',
        '128u', '2147483648u', '4294967295u', '4294967296u', '1099511627777u', '128l', '2147483648l', '4294967295ul', '4294967296ul', '18446744073709551615ul', '18446744071562067968ull', '9223372036854775808ull', '9223372036854775809ull', "'a'", "'\\377'", "'\\x80'"]


def part_constants(tier):
    """constants of every size and spelling converted to every type (once, twice) in every place, also as operands"""
    for l in LITS:
        for d in TYPES:
            for i, src in enumerate([
                    'long f@(void) { return (%(d)s)%(l)s; }', 'long f@(void) { %(d)s x = %(l)s; return x; }', 'long f@(void) { %(d)s x; x = %(l)s; return x; }', '%(d)s f@(void) { return %(l)s; }',
                    'long g@(%(d)s x) { return x; }\nlong f@(void) { return g@(%(l)s); }', '%(d)s h@ = %(l)s;\nlong f@(void) { return h@; }', '%(d)s h@;\nlong f@(void) { h@ = %(l)s; return h@; }',
                    'struct S@ { char p; %(d)s m[2]; char q; };\nlong f@(void) { struct S@ s = {1, {2, %(l)s}, 3}; return s.m[1] + s.q + s.p; }', 'struct S@ { char p; %(d)s m[2]; char q; };\nstruct S@ s@ = {1, {2, %(l)s}, 3};\nlong f@(void) { return s@.m[1] + s@.q + s@.p; }',
                    'long f@(void) { %(d)s x; %(d)s *p = &x; *p = %(l)s; return x; }', 'long f@(void) { if ((%(d)s)%(l)s) return 1; return 2; }', 'long f@(void) { return !(%(d)s)%(l)s + ((%(d)s)%(l)s && 1) * 2; }',
                    'long f@(void) { return -(%(d)s)%(l)s; }', 'long f@(void) { return ~(%(d)s)%(l)s; }', 'long f@(void) { return (%(d)s)-%(l)s; }', 'long f@(void) { return (%(d)s)~%(l)s; }',
                    'long f@(int c) { return c ? (%(d)s)%(l)s : 1; }']):
                yield Unit(src % dict(d=d, l=l), [(1,)] if 'int c' in src else [()], tag='constant')
            for e in TYPES:
                D = dict(d=d, e=e, l=l)
                yield Unit('long f@(void) { return (%(e)s)(%(d)s)%(l)s; }' % D, tag='constant-twice')
                yield Unit('long f@(void) { %(e)s x = (%(d)s)%(l)s; return x; }' % D, tag='constant-twice')
                yield Unit('long f@(%(e)s a) { return a < (%(d)s)%(l)s; }' % D, [(v,) for v in SV[e]], tag='constant-operand')
                for op in ['+', '&', '==', '>=', '-', '|', '^'] if tier == 'thorough' else ['+', '&', '==', '>=']:
                    yield Unit('long f@(%s a) { return a %s (%s)%s; }' % (e, op, d, l), [(v,) for v in SV[e]], tag='constant-operand')
                    yield Unit('long f@(%s a) { if ((%s)%s %s a) return 1; return 2; }' % (e, d, l, op), [(v,) for v in SV[e]], tag='constant-operand')
                yield Unit('long f@(%s a) { a += (%s)%s; return a; }' % (e, d, l), [(v,) for v in SV[e]], tag='constant-operand')


PARTS = [('contexts', part_contexts), ('conditions', part_cond), ('compound-assignment', part_compound),
         ('increment-decrement', part_incdec), ('store-width', part_width), ('subscripts', part_subscript), ('constants', part_constants),
         ('switch', part_switch)]
