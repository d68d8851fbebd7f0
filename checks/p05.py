"""Calls: arguments, results, callee-saved registers, stack discipline, recursion and function pointers, against the
System V ABI on both sides (umlcc code calls foreign functions and is called by them)."""
from harness import *
from gen import *

CH = {'char': 'c', 'int': 'i', 'unsigned int': 'u', 'long': 'l', 'unsigned long': 'U', 'long long': 'L',
      'unsigned long long': 'W'}
T5 = ['char', 'int', 'unsigned int', 'long', 'unsigned long']
NARG = 14


def ext_table():
    x = dict(EXTS)
    for n in range(0, NARG + 1):
        for t in T5:
            x['x%s%d' % (CH[t], n)] = 'lf' + CH[t] * n          # homogeneous
        mix = ''.join(CH[T5[(k * 3 + n) % 5]] for k in range(n))
        x['xm%d' % n] = 'lf' + mix
        x['xk%d' % n] = 'lf' + ''.join(CH[T5[(k + n) % 5]] for k in range(n))
    for t in TYPES:
        x['xr' + CH[t]] = CH[t] + 'i' + CH[t]
        for u in T5:
            if t in T5:
                x['xp%s%s' % (CH[t], CH[u])] = 'lf' + CH[t] + CH[u]
    return x


ENV = Env(ext_table())
TN = {v: k for k, v in CH.items()}


def edge(t, k):
    vs = SV[t]
    return vs[k % len(vs)]


def sig_types(name):
    return [TN[c] for c in ENV.exts[name][2:]]


def fold(ts, vs):
    return ' + '.join('(long)%s * %dl' % (v, 2 * i + 1) for i, (t, v) in enumerate(zip(ts, vs))) or '0'


def lists():
    for n in range(0, NARG + 1):
        for t in T5:
            yield 'x%s%d' % (CH[t], n)
        yield 'xm%d' % n
        yield 'xk%d' % n
    for t in T5:
        for u in T5:
            yield 'xp%s%s' % (CH[t], CH[u])


def small(t, k):
    """values whose weighted sums cannot overflow a long"""
    m = {'char': [-128, -1, 0, 5, 127], 'int': [-I31, -7, 0, 3, I31 - 1], 'unsigned int': [0, 9, I31, 2 * I31 - 1],
         'long': [-(1 << 40), -2, 0, 11, 1 << 41], 'unsigned long': [0, 4, 1 << 33, 1 << 45]}[t]
    return m[k % len(m)]


def part_out(tier):
    """umlcc code passes every argument list to a foreign function"""
    for name in dict.fromkeys(lists()):
        ts = sig_types(name)
        cs = [tuple(small(t, i + k) for i, t in enumerate(ts)) for k in range(5)]
        # constants
        for k in range(3):
            yield Unit('long f@(void) { return %s(%s); }' % (name, ', '.join(lit(t, edge(t, i + k)) for i, t in enumerate(ts))),
                       tag='out-const')
        # parameters forwarded, in order and reversed
        ps = ', '.join('%s a%d' % (t, i) for i, t in enumerate(ts)) or 'void'
        yield Unit('long f@(%s) { return %s(%s); }' % (ps, name, ', '.join('a%d' % i for i in range(len(ts)))), cs, tag='out-fwd')
        n = len(ts)
        rev = ', '.join('%s a%d' % (ts[n - 1 - i], i) for i in range(n)) or 'void'
        yield Unit('long f@(%s) { return %s(%s); }' % (rev, name, ', '.join('a%d' % (n - 1 - i) for i in range(n))),
                   [tuple(reversed(c)) for c in cs], tag='out-rev')
        # converted from every other type
        for t in T5:
            ps2 = ', '.join('%s a%d' % (t, i) for i in range(n)) or 'void'
            yield Unit('long f@(%s) { return %s(%s); }' % (ps2, name, ', '.join('a%d' % i for i in range(n))),
                       [tuple(small(t, i + k) for i in range(n)) for k in range(4)], tag='out-conv')
        # operands computed
        yield Unit('long f@(%s) { return %s(%s) - 1; }' % (ps, name, ', '.join('a%d - %d' % (i, i) if i % 2 else '-a%d' % i for i in range(n))),
                   cs, tag='out-expr')


def part_in(tier):
    """foreign code calls umlcc code with every argument list; parameters arrive, also when they are modified, are arrays of
    locals nearby, have their address taken"""
    for name in dict.fromkeys(lists()):
        ts = sig_types(name)
        n = len(ts)
        cs = [tuple(small(t, i + k) for i, t in enumerate(ts)) for k in range(5)]
        ps = ', '.join('%s a%d' % (t, i) for i, t in enumerate(ts)) or 'void'
        A = ['a%d' % i for i in range(n)]
        yield Unit('long f@(%s) { long s = 0; %s return s; }' % (ps, ' '.join('s = s + (long)%s * %dl;' % (a, 2 * i + 1) for i, a in enumerate(A))),
                   cs, tag='in')
        yield Unit('long f@(%s) { int l0 = 77; char l1 = 5; long s = 0; %s return s + l0 + l1; }' % (
            ps, ' '.join('%s = %s + 1; %s *p%d = &%s; s = s + (long)*p%d * %dl;' % (a, a, ts[i], i, a, i, 2 * i + 1) for i, a in enumerate(A))),
            [tuple(small(t, i + k + 2) if small(t, i + k + 2) < 100 else 3 for i, t in enumerate(ts)) for k in range(4)], tag='in-modified')
        # reach the parameters after a call clobbered every caller-saved register
        yield Unit('long f@(%s) { tn(); long s = 0; %s tn(); %s return s; }' % (
            ps, ' '.join('s = s + (long)%s;' % a for a in A), ' '.join('s = s - (long)%s * 3l;' % a for a in A)), cs, tag='in-after-call')
        for i in range(n):
            yield Unit('%s f@(%s) { return a%d; }' % (ts[i], ps, i), cs, tag='in-each')
    for t in TYPES:
        for k in range(0, 9):
            yield Unit('%s f@(%s) { return a%d; }' % (t, ', '.join('%s a%d' % (t, i) for i in range(k + 1)), k),
                       [tuple(edge(t, i + j) for i in range(k + 1)) for j in range(5)], tag='in-type')


def part_self(tier):
    """umlcc code calls umlcc code"""
    for name in dict.fromkeys(lists()):
        ts = sig_types(name)
        n = len(ts)
        cs = [tuple(small(t, i + k) for i, t in enumerate(ts)) for k in range(4)]
        ps = ', '.join('%s a%d' % (t, i) for i, t in enumerate(ts)) or 'void'
        A = ['a%d' % i for i in range(n)]
        g = 'long g@(%s) { long s = 1; %s return s; }\n' % (ps, ' '.join('s = s + (long)%s * %dl;' % (a, 2 * i + 1) for i, a in enumerate(A)))
        yield Unit(g + 'long f@(%s) { return g@(%s); }' % (ps, ', '.join(A)), cs, tag='self')
        yield Unit(g + 'long f@(%s) { long x = g@(%s); long y = g@(%s); return x - y; }' % (
            ps, ', '.join(A), ', '.join('%s' % lit(t, i + 1) for i, t in enumerate(ts))), cs, tag='self2')
        yield Unit(g + 'long h@(long (*p)(%s)%s) { return p(%s); }\nlong f@(%s) { return h@(g@%s); }' % (
            ', '.join(ts) or 'void', ''.join(', %s a%d' % (t, i) for i, t in enumerate(ts)), ', '.join(A), ps,
            ''.join(', ' + a for a in A)), cs, tag='self-ptr')


def part_ret(tier):
    """results of every type: converted, used, discarded"""
    for t in TYPES:
        vs = [(v,) for v in VALS[t]]
        c = CH[t]
        for u in TYPES:
            yield Unit('%s g@(%s a) { return a; }\n%s f@(%s a) { return g@(a); }' % (u, u, t, t), vs, tag='ret-conv')
            yield Unit('%s f@(%s a) { return xr%s(a); }' % (t, t, CH[u]), vs, tag='ret-ext')
            yield Unit('%s f@(%s a) { %s r = xr%s(a); return r; }' % (t, t, u, c), vs, tag='ret-ext-var')
        yield Unit('int f@(%s a) { if (xr%s(a)) return 1; return 2; }' % (t, c), vs, tag='ret-cond')
        yield Unit('int f@(%s a) { return !xr%s(a); }' % (t, c), vs, tag='ret-not')
        yield Unit('int f@(%s a) { return xr%s(a) == a; }' % (t, c), vs, tag='ret-eq')
        yield Unit('int f@(%s a) { return xr%s(a) < 5; }' % (t, c), vs, tag='ret-lt')
        yield Unit('int f@(%s a) { xr%s(a); return 5; }' % (t, c), vs, tag='ret-discard')
        yield Unit('long f@(%s a) { long m[3]; m[0] = 5; m[1] = xr%s(a); m[2] = 6; return m[1] + m[0] - m[2]; }' % (t, c),
                   [v for v in vs if abs(v[0]) < 1 << 62], tag='ret-elem')
        yield Unit('%s f@(%s a) { return xr%s(xr%s(xr%s(a))); }' % (t, t, c, c, c), vs, tag='ret-chain')
        yield Unit('%s *g@(%s *p) { return p + 1; }\nlong f@(void) { %s m[3]; return g@(m) - m; }' % (t, t, t), tag='ret-ptr')
        yield Unit('%s v@[3]; %s *g@(int i) { return v@ + i; }\n%s f@(%s a) { *g@(1) = a; g@(0)[2] = 3; return v@[1]; }' % (t, t, t, t), vs,
                   tag='ret-ptr-store')


def part_nested(tier):
    """a call as the argument of a call, at every position of every arity, to depth 3; the argument list mixes computed and
    simple arguments"""
    top = 9 if tier != 'thorough' else 12
    for n in range(1, top + 1):
        for i in range(n):
            for m in range(1, top + 1):
                a = ['%d + a' % k for k in range(n)]
                a[i] = 'xl%d(%s)' % (m, ', '.join('%d - a' % k for k in range(m)))
                yield Unit('long f@(int a) { return xl%d(%s); }' % (n, ', '.join(a)), [(5,)], order=True, tag='nested')
                if m <= 3 or tier == 'thorough':
                    a[i] = 'xl%d(%s)' % (m, ', '.join(['xi2(a, 3)'] * 1 + ['%d' % k for k in range(m - 1)]))
                    yield Unit('long f@(int a) { return xl%d(%s); }' % (n, ', '.join(a)), [(5,)], order=True, tag='nested3')
    # several nested calls
    for n in range(2, 10):
        for mask in range(1, 1 << n):
            if bin(mask).count('1') > 4 and tier != 'thorough':
                continue
            a = ['xi1(a + %d)' % k if mask >> k & 1 else 'a - %d' % k for k in range(n)]
            yield Unit('int p@(int a) { return a * 3; }\nlong f@(int a) { int b = 0; b = xl%d(%s); return b; }' % (n, ', '.join(a).replace('xi1', 'p@')),
                       [(5,), (-2,)], tag='nested-many')
            yield Unit('int p@(int a) { return a * 3; } int q@(%s) { return %s; }\nlong f@(int a) { return a - q@(%s); }' % (
                ', '.join('int a%d' % k for k in range(n)), ' + '.join('a%d * %d' % (k, k + 1) for k in range(n)),
                ', '.join(a).replace('xi1', 'p@')), [(5,), (-2,)], tag='nested-many-self')


def part_align(tier):
    """the stack is aligned at every call: frames of every size, calls in every position"""
    for sz in range(0, 41):
        decl = 'char l[%d]; l[0] = 1; ' % sz if sz else ''
        for n in range(0, 10):
            args = ', '.join('%d' % (k + 1) for k in range(n))
            yield Unit('long f@(int a) { %sreturn xi%d(%s); }' % (decl, n, args), [(3,)], tag='align')
            if n and sz % 3 == 0:
                yield Unit('long f@(int a) { %sreturn xi%d(xi%d(%s)%s); }' % (
                    decl, n, n, args, ''.join(', %d' % k for k in range(n - 1))), [(3,)], tag='align-nested')
                yield Unit('long f@(int a) { %slong x = a + xi%d(%s); return x + a * 2 - xi%d(%s); }' % (decl, n, args, n, args), [(3,)],
                           tag='align-live', order=True)
    for np in range(0, 10):
        for nl in range(0, 6):
            ps = ', '.join('char a%d' % i for i in range(np)) or 'void'
            ls = ' '.join('char l%d = %d;' % (i, i + 1) for i in range(nl))
            s = ' + '.join(['l%d' % i for i in range(nl)] + ['a%d' % i for i in range(np)]) or '0'
            yield Unit('long f@(%s) { %s long r = tn(); return r + xi7(1,2,3,4,5,6,7) + %s; }' % (ps, ls, s),
                       [tuple(i + 3 for i in range(np))], tag='align-params')


def part_live(tier):
    """values computed before a call are still there after it, for every arity and both sides of every operator"""
    for op in ['+', '-', '*', '&', '|', '^', '<', '==', '<<', '/', '%', '>>']:
        for n in range(0, 8):
            call = 'xi%d(%s)' % (n, ', '.join('a + %d' % k for k in range(n)))
            sm = '(%s & 7)' % call
            for e in ['(a + 1) %s %s' % (op, sm), '%s %s (a + 1)' % (sm, op), '(a * 2) + ((b - 1) %s %s)' % (op, sm),
                      '((a + b) %s %s) - (a - b)' % (op, sm), '(%s %s 2) + (b %s 3)' % (sm, op, op)]:
                yield Unit('long f@(long a, int b) { return %s; }' % e, [(7, 3), (1, 0), (-3, 2)], order=True, tag='live')
    # pointers and addresses live across calls
    for n in range(0, 8):
        c = 'xi%d(%s)' % (n, ', '.join('%d' % k for k in range(n)))
        for st in ['m[1] = %s;' % c, '*(p + 1) = %s;' % c, 'm[a] = %s;' % c, 'p[a] = m[0] + %s;' % c, 's.x = %s;' % c, 'q->x = %s;' % c,
                   'm[%s & 1] = 5;' % c, '*(p + (%s & 1)) = a;' % c, 'm[1] += %s;' % c, 'q->x -= %s;' % c, 'm[a] = m[0] * %s;' % c,
                   'q->y[a] = %s;' % c, 's.y[1] = %s + a;' % c, 'm[1] = a ? %s : 3;' % c, 'm[0] = a + (a && %s);' % c]:
            yield Unit('struct S@ { int x; int y[2]; };\nint f@(int a) { int m[3]; int *p = m; struct S@ s; struct S@ *q = &s; m[0] = 1; m[1] = 2; '
                       'm[2] = 3; s.x = 4; s.y[0] = 5; s.y[1] = 6; %s tv(m[0]); tv(m[1]); tv(m[2]); tv(s.x); tv(s.y[0]); tv(s.y[1]); return 0; }' % st,
                       [(0,), (1,)], order=True, tag='live-lvalue')


def part_held(tier):
    """a call of every kind with every number of arguments made while k values are held, for every k: they are intact afterwards, and
    neither the arguments nor the called address is lost among them"""
    kinds = {'direct': 'g@', 'foreign': 'xi%(n)d', 'pointer': 'p', 'dereference': '(*p)', 'foreign pointer': 'q', 'element': 't[c & 1]', 'member': 's.m', 'arrow': 'o->m', 'selected': '(c ? p : q)', 'returned': 'sel@(c)', 'address': '(&g@)', 'global pointer': 'gp@'}
    args = {'constants': lambda i: '%d' % (i + 2), 'variables': lambda i: 'abcd'[i % 4], 'computed': lambda i: ['a + %d' % i, 'b * %d' % i, 'c - d', '-a'][i % 4], 'calls': lambda i: 'a' if i % 3 else 'k@(b + %d)' % i, 'divided': lambda i: ['a / 2', 'b %% %d' % (i + 3), 'c << 1', 'd'][i % 4]}
    for n in range(0, 10):
        ps = ', '.join('int a%d' % i for i in range(n)) or 'void'
        pt = ', '.join('int' for i in range(n)) or 'void'
        pre = 'int k@(int x) { return x * 2 + 1; }\nlong g@(%s) { return %s; }\n' % (ps, ' + '.join('(long)a%d * %d' % (i, i + 2) for i in range(n)) or '3')
        pre += 'typedef long F@(%s);\nstruct O@ { char z; F@ *m; };\nF@ *gp@;\nF@ *sel@(int c) { return c ? g@ : xi%d; }\n' % (pt, n)
        setup = 'F@ *p = g@; F@ *q = xi%d; F@ *t[2]; t[0] = xi%d; t[1] = g@; struct O@ s; s.m = g@; struct O@ *o = &s; gp@ = xi%d;' % (n, n, n)
        for (kn, e), (an, af) in itertools.product(kinds.items(), args.items()):
            if n == 0 and an != 'constants':
                continue
            call = '%s(%s)' % (e.replace('%(n)d', str(n)), ', '.join(af(i) for i in range(n)))
            for k in range(0, 11 if tier == 'thorough' else 8):
                x = call
                for j in range(k):
                    x = '(%s %s %s)' % (['c', '(d + 1)', '(a * b)', 'd'][j % 4], '-+*'[j % 3], x)
                yield Unit(pre + 'long f@(int a, int b, int c, int d) { %s return %s; }' % (setup, x), [(7, 3, 1, 2), (-4, 5, 0, 9)], opt=k > 3, order=True, tag='held')
                if k in (1, 2) and an != 'calls':
                    yield Unit(pre + 'long f@(int a, int b, int c, int d) { %s long m[3]; m[1] = 5; m[%s & 1] = a; m[c] = %s; tvl(m[1]); return (a - %s) * (b - (c - %s)); }' % (
                        setup, call, call if k == 1 else 'd - ' + call, call, call), [(7, 3, 1, 2), (-4, 5, 0, 9)], order=True, tag='held-twice')


def holding(k, call):
    x = call
    for j in range(k):
        x = '(%s %s %s)' % (['a', '(b + 1)', '(a * b)', 'b'][j % 4], '-+*'[j % 3], x)
    return x


def part_sequences(tier):
    """several calls in one function, each made while another number of values is held, in every order, in one or more statements;
    the registers of the caller are intact and the stack is aligned at each"""
    K = range(0, 6 if tier != 'thorough' else 7)
    c2 = ['xi0()', 'xi1(b)', 'xi7(1, 2, 3, a, b, 6, 7)', 'p@(b)']
    pre = 'int p@(int x) { return x * 3 + xi0(); }\n'
    for r in (2, 3):
        for ks in itertools.product(K, repeat=r):
            for i, call in enumerate(c2 if r == 2 else c2[:1]):
                cs = [holding(k, c2[(i + n) % 4] if r == 2 else c2[(k + n) % 4]) for n, k in enumerate(ks)]
                o = max(ks) > 3
                yield Unit(pre + 'int f@(int a, int b) { %s return 0; }' % ' '.join('tv(%s);' % c for c in cs), [(3, 2)], opt=o, order=True, tag='sequence')
                yield Unit(pre + 'int f@(int a, int b) { if (a > b) { int x = %s; tv(x); } else tv(%s); return %s; }' % (cs[0], cs[1], cs[-1]), [(3, 2), (2, 3)], opt=o, order=True, tag='sequence-if')
                yield Unit(pre + 'int f@(int a, int b) { int s = 0; for (int i = 0; i < 2; i++) { s = s + %s; } while (%s < 0) a--; return s + %s; }' % (cs[0], holding(ks[1], 'p@(b - 900)'), cs[-1]), [(3, 2)], opt=o, order=True, tag='sequence-loop')
    # calls without (or with few) arguments as the n-th of many arguments
    for n in range(7, 21 if tier != 'thorough' else 31):
        for i in range(n):
            for c in ['xi0()', 'xi1(a)', 'p@(a)', 'z@()', 'xi7(1, 2, 3, 4, 5, 6, a)', '(a + z@())', 'xi1(z@())']:
                ps = ', '.join('int a%d' % k for k in range(n))
                a = ['%d + a' % k for k in range(n)]
                a[i] = c
                yield Unit('int z@(void) { return xi0() + 2; }\nint p@(int x) { return x * 3 + xi0(); }\nlong q@(%s) { return %s; }\nlong f@(int a) { return q@(%s); }' % (
                    ps, ' + '.join('(long)a%d * %d' % (k, k + 1) for k in range(n)), ', '.join(a)), [(5,)], order=True, tag='sequence-args')
                if i and i % 3 == 0:
                    a[i // 2] = c
                    yield Unit('int z@(void) { return xi0() + 2; }\nint p@(int x) { return x * 3 + xi0(); }\nlong q@(%s) { return %s; }\nlong f@(int a) { return a - q@(%s); }' % (
                        ps, ' + '.join('(long)a%d * %d' % (k, k + 1) for k in range(n)), ', '.join(a)), [(5,)], order=True, tag='sequence-args')


def part_rec(tier):
    up = 12
    yield Unit('int f@(int n) { if (n < 2) return n; return f@(n - 1) + f@(n - 2); }', [(i,) for i in range(up)], tag='fib')
    yield Unit('long f@(long n) { return n ? n * f@(n - 1) : 1; }', [(i,) for i in range(15)], tag='fact')
    yield Unit('int f@(int m, int n) { if (m == 0) return n + 1; if (n == 0) return f@(m - 1, 1); return f@(m - 1, f@(m, n - 1)); }',
               [(i, j) for i in range(3) for j in range(5)], tag='ack')
    for n in range(1, 10):
        ps = ', '.join('int a%d' % i for i in range(n))
        rot = ', '.join('a%d' % ((i + 1) % n) if i else 'a%d - 1' % (1 % n) if n > 1 else 'a0 - 1' for i in range(n))
        s = ' + '.join('a%d * %d' % (i, i + 1) for i in range(n))
        yield Unit('int f@(int k%s) { if (k == 0) return %s; int l = k; int r = f@(k - 1%s); return r * 2 + l; }' % (
            ''.join(', int a%d' % i for i in range(n)), s, ''.join(', a%d' % ((i + 1) % n) for i in range(n))),
            [(k,) + tuple(range(n)) for k in range(0, 8)], tag='rotate')
        yield Unit('int f@(int k) { int m[%d]; int i; if (k == 0) return 1; for (i = 0; i < %d; i++) m[i] = k * 10 + i; int r = f@(k - 1); '
                   'for (i = 0; i < %d; i++) r = r + m[i]; return r; }' % (n, n, n), [(k,) for k in range(0, 7)], tag='frames')
    yield Unit('int g@(int n, int (*p)(int)) { if (n == 0) return p(1); return p(n) + g@(n - 1, p); }\nint h@(int x) { tv(x); return x * 3; }\n'
               'int f@(int n) { return g@(n, h@); }', [(i,) for i in range(5)], tag='callback')
    yield Unit('int s@; void mv@(int n, int a, int b, int c) { if (n == 0) return; mv@(n - 1, a, c, b); tv(a * 10 + c); s@ = s@ + 1; mv@(n - 1, b, a, c); }\n'
               'int f@(int n) { mv@(n, 1, 2, 3); return s@; }', [(i,) for i in range(6)], tag='hanoi')
    yield Unit('int b@[8]; int q@(int r, int n) { int c; int i; int t = 0; if (r == n) return 1; for (c = 0; c < n; c++) { int ok = 1; '
               'for (i = 0; i < r; i++) { int d = b@[i] - c; if (d == 0 || d == r - i || d == i - r) ok = 0; } if (ok) { b@[r] = c; t = t + q@(r + 1, n); } } return t; }\n'
               'int f@(int n) { return q@(0, n); }', [(i,) for i in range(1, 6)], tag='queens')
    # deep recursion: every frame is intact when it is returned to
    for d in [1, 2, 10, 100, 500]:
        yield Unit('int f@(int n) { int a = n * 3; int b[3]; b[0] = n; b[1] = n + 1; b[2] = n + 2; if (n == 0) return 0; int r = f@(n - 1); '
                   'if (a != n * 3 || b[0] != n || b[1] != n + 1 || b[2] != n + 2) return -1; return r + 1; }', [(d,)], tag='deep')


def part_fptr(tier):
    """function pointers: every place one can be stored in, passed through and called from"""
    G = 'int g@(int a) { return a + 1; } int h@(int a) { return a * 2; } int k@(int a) { return a - 3; }\n'
    vs = [(c, v) for c in (0, 1, 2) for v in (5, -1)]
    for body in ['int (*p)(int) = g@; if (c == 1) p = h@; if (c == 2) p = &k@; return p(v);',
                 'int (*p)(int); p = c ? g@ : h@; return (*p)(v);',
                 'return (c ? g@ : h@)(v);', 'return (c == 1 ? &g@ : c == 2 ? h@ : k@)(v);',
                 'int (*t[3])(int); t[0] = g@; t[1] = h@; t[2] = k@; return t[c](v);',
                 'int (*t[3])(int) = {g@, h@, k@}; return (*t[c])(v) + t[0](1);',
                 'int (*p)(int) = g@; int (**q)(int) = &p; *q = h@; return (*q)(v) + p(c);',
                 'return (**h@)(v);', 'return (&k@)(v);', 'int (*p)(int) = c ? h@ : g@; return p(p(p(v)));',
                 'int (*p)(int) = h@; int (*q)(int) = g@; return p(q(v)) - q(p(c));',
                 'int (*p)(int) = c == 1 ? g@ : h@; return (p == g@) * 10 + (p != h@) + (h@ == p);',
                 'int (*p)(int) = g@; int i; int s = 0; for (i = 0; i < 3; i++) { s = s * 3 + p(v + i); p = p == g@ ? h@ : k@; } return s;']:
        yield Unit(G + 'int f@(int c, int v) { %s }' % body, vs, tag='fptr')
    S = 'struct O@ { int id; int (*m)(int); char z; int (*t[2])(int); };\n'
    for body in ['struct O@ o; o.id = 4; o.m = h@; o.z = 1; o.t[0] = g@; o.t[1] = k@; return o.m(v) + o.t[c & 1](v) + o.id;',
                 'struct O@ o; struct O@ *p = &o; p->m = c ? g@ : k@; return p->m(v);',
                 'struct O@ o[2]; o[0].m = g@; o[1].m = h@; o[0].t[1] = k@; return o[c & 1].m(v) + (*o[0].t[1])(v);']:
        yield Unit(G + S + 'int f@(int c, int v) { %s }' % body, vs, tag='fptr-member')
    yield Unit(G + 'int (*sel@(int c))(int) { if (c == 0) return g@; if (c == 1) return &h@; return k@; }\n'
               'int f@(int c, int v) { int (*p)(int) = sel@(c); return p(v) + sel@(c)(v) + (*sel@(2))(1); }', vs, tag='fptr-return')
    yield Unit(G + 'typedef int F@(int); typedef F@ *P@; F@ *z@; int ap@(F@ q, int x) { return q(x); } int aq@(P@ q, int x) { return q(x); }\n'
               'int f@(int c, int v) { z@ = c ? g@ : h@; P@ y = z@; return ap@(y, v) + aq@(k@, v) + z@(1) + ap@(h@, c); }', vs, tag='fptr-typedef')
    yield Unit(G + 'int (*z@[3])(int); int f@(int c, int v) { z@[0] = h@; z@[1] = k@; z@[2] = z@[0]; return z@[c](v) * 3 + z@[2](c); }', vs, tag='fptr-global')
    yield Unit('void a@(int x) { tv(x); } void b@(int x) { tv(-x); }\nint f@(int c, int v) { void (*p)(int) = c ? a@ : b@; p(v); (*p)(v + 1); (c == 2 ? b@ : a@)(7); return 0; }',
               vs, tag='fptr-void')
    for n in range(0, 10):
        ps = ', '.join('long a%d' % i for i in range(n)) or 'void'
        yield Unit('long g@(%s) { return %s; }\nlong f@(int c) { long (*p)(%s) = g@; long (*q)(%s) = xl%d; return (c ? p : q)(%s) + p(%s); }' % (
            ps, ' + '.join('a%d * %d' % (i, i + 2) for i in range(n)) or '3', ps, ps, n,
            ', '.join('%d + c' % i for i in range(n)), ', '.join('c - %d' % i for i in range(n))), [(0,), (1,)], tag='fptr-args')
    for t in TYPES:
        for u in TYPES:
            yield Unit('%s g@(%s a) { return a; }\n%s f@(%s a) { %s (*p)(%s) = g@; return p(a); }' % (u, t, u, t, u, t),
                       [(v,) for v in VALS[t]], tag='fptr-types')
            yield Unit('%s g@(%s a) { return a; }\nlong f@(%s a) { %s (*p)(%s) = g@; return p(a); }' % (u, u, t, u, u),
                       [(v,) for v in VALS[t]], tag='fptr-conv')


def part_scale(tier):
    """many arguments, many calls"""
    for n in list(range(15, 41)) + ([60, 63] if tier == 'thorough' else []):
        ps = ', '.join('%s a%d' % (T5[i % 5], i) for i in range(n))
        s = ' '.join('s = s + (long)a%d * %dl;' % (i, i + 1) for i in range(n))
        yield Unit('long f@(%s) { long s = 0; %s return s; }' % (ps, s), [tuple((i * 7) % 100 for i in range(n))], tag='many-params')
        yield Unit('long g@(%s) { long s = 0; %s return s; }\nlong f@(int a) { return g@(%s); }' % (
            ps, s, ', '.join('a + %d' % i for i in range(n))), [(3,)], tag='many-args')
    for n in list(range(1, 30)) + [40, 64, 100, 128, 200, 256, 300]:
        yield Unit('int f@(int a) { int s = 0; %s return s; }' % ' '.join('s = s + ti(a + %d);' % i for i in range(n)), [(3,)], tag='many-calls')
    for n in range(1, 41):
        yield Unit('int f@(int a) { return %s a %s; }' % ('ti(' * n, ')' * n), [(3,)], tag='deep-nesting')
        yield Unit('int f@(int a) { return %s a %s; }' % ('xi7(1, 2, 3, 4, 5, 6, ' * n, ')' * n), [(3,)], tag='deep-nesting7')
        yield Unit('int f@(int a) { return %s a %s; }' % ('xi8(1, 2, 3, 4, 5, 6, ' * n, ', 9)' * n), [(3,)], tag='deep-nesting8')
    for n in range(1, 41):
        defs = ' '.join('int g@_%d(int a) { return %s; }' % (i, 'g@_%d(a + 1) + 1' % (i - 1) if i else 'a') for i in range(n))
        yield Unit(defs + '\nint f@(int a) { return g@_%d(a); }' % (n - 1), [(3,)], tag='call-chain')


PARTS = [('arguments-out', part_out), ('arguments-in', part_in), ('umlcc-to-umlcc', part_self), ('results', part_ret),
         ('nested-calls', part_nested), ('stack-alignment', part_align), ('live-across-calls', part_live), ('held', part_held), ('sequences', part_sequences),
         ('recursion', part_rec), ('function-pointers', part_fptr), ('scale', part_scale)]
