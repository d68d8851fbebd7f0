"""Register allocation: every value survives from its computation to its use, however many are alive at once; an expression
that needs more registers than there are is diagnosed."""
from harness import *
from gen import *
import functools


@functools.lru_cache(None)
def shapes(n):
    """binary trees with n leaves"""
    if n == 1:
        return ('#',)
    return tuple((l, r) for k in range(1, n) for l in shapes(k) for r in shapes(n - k))


def need(t, leaf=1):
    """registers needed when the left operand is always evaluated first"""
    if t == '#':
        return leaf
    return max(need(t[0], leaf), 1 + need(t[1], leaf))


def calls_deep(t, held, kinds, it):
    """largest number of values held while a call leaf is evaluated"""
    if t == '#':
        return held if kinds[next(it)] == 'call' else 0
    a = calls_deep(t[0], held, kinds, it)
    return max(a, calls_deep(t[1], held + 1, kinds, it))


def render(t, ops, leaves, oi, li):
    if t == '#':
        return leaves[next(li) % len(leaves)]
    a = render(t[0], ops, leaves, oi, li)
    o = ops[next(oi) % len(ops)]
    return '(%s %s %s)' % (a, o, render(t[1], ops, leaves, oi, li))


def expr(t, ops, leaves, o0=0, l0=0):
    return render(t, ops, leaves, itertools.count(o0), itertools.count(l0))


HARD = 7        # expressions that hold at most this many values at once must be compiled

VARS = ['a', 'b', 'c', 'd']
VALS4 = [(7, 3, 5, 2), (-100, 9, 1, 4), (1, 1, 1, 1)]
PARAMS = 'int a, int b, int c, int d'


def part_shapes(tier):
    """every tree shape with variables, for several operator rotations"""
    OPS = [['+'], ['-'], ['*', '-'], ['+', '^', '-'], ['|', '+', '&', '-'], ['<', '+'], ['-', '/', '+'], ['%', '-', '*'], ['<<', '-'],
           ['==', '+', '>=', '-'], ['>>', '+', '<<'], ['/'], ['%'], ['-', '%', '/', '*']]
    top = 10 if tier != 'thorough' else 11
    for n in range(2, top + 1):
        for t in shapes(n):
            for k, ops in enumerate(OPS):
                if n >= 8 and k >= {8: 6, 9: 3}.get(n, 1):
                    break
                yield Unit('int f@(%s) { return %s; }' % (PARAMS, expr(t, ops, VARS, 0, k)), VALS4, opt=need(t) > HARD, tag='shape')


def part_leaves(tier):
    """operands that need registers of their own"""
    kinds = {
        'elem': ('', 'int m[4]; m[0] = a; m[1] = b; m[2] = c; m[3] = d; int i = 1; int j = 3;', ['m[0]', 'm[i]', 'm[j]', 'm[i + 1]']),
        'deref': ('', 'int *p = &a; int *q = &b; int **r = &p;', ['*p', '*q', '**r', 'c']),
        'member': ('struct S@ { char x; int y; int z[2]; };\n', 'struct S@ s; struct S@ *p = &s; s.x = a; s.y = b; s.z[0] = c; s.z[1] = d;',
                   ['s.x', 'p->y', 's.z[0]', 'p->z[1]']),
        'global': ('int g@; int h@[3];\n', 'g@ = a; h@[1] = b; h@[2] = c;', ['g@', 'h@[1]', 'h@[2]', 'd']),
        'const': ('', '', ['a', '3', '100', 'b']),
        'call': ('int k@(int x) { return x * 3 - 1; }\n', '', ['k@(a)', 'b', 'k@(c)', 'd']),
        'calls': ('int k@(int x, int y) { return x * 3 - y; }\n', '', ['k@(a, b)', 'k@(b, 1)', 'k@(c, d)', 'k@(d, a)']),
        'ext': ('', '', ['tii(a, 1)', 'b', 'c', 'd']),
        'cond': ('', '', ['(a ? b : c)', 'b', '(c && d)', '(a || b)']),
        'cast': ('', '', ['(char)a', '(long)b', '(unsigned int)c', '(long)(char)d']),
        'unary': ('', '', ['-a', '~b', '!c', '+d']),
        'incr': ('', 'int e = a; int g = b;', ['e', 'b', 'g', 'd']),
        'asg': ('', 'int x; int y;', ['(x = a)', 'b', '(y = c)', 'd']),
        'ptr': ('', 'int m[8]; int *p = m + 1; int *q = m + 5; m[0] = a; m[1] = b; m[2] = c; m[5] = d;', ['(int)(q - p)', 'a', '*(p + 1)', '*(q - 4)']),
        'mixed': ('int k@(int x) { return x * 3 - 1; }\n', 'int m[4]; m[0] = a; m[1] = b; m[2] = c; m[3] = d; int *p = &b; int i = 2;',
                  ['k@(a)', 'm[i]', '*p', '(a ? c : d)', '(long)d', 'm[k@(0) + 2]', '-b']),
    }
    OPS = [['+'], ['-', '*'], ['^', '-', '+'], ['<', '+', '-'], ['%', '-', '/']]
    top = 8 if tier != 'thorough' else 9
    for name, (g, setup, leaves) in kinds.items():
        for n in range(2, top + 1):
            for t in shapes(n):
                for k, ops in enumerate(OPS):
                    if n >= 6 and k > (1 if n == 6 else 0):
                        break
                    for rot in range(2 if n < 7 else 1):
                        yield Unit(g + 'long f@(%s) { %s return %s; }' % (PARAMS, setup, expr(t, ops, leaves, 0, rot + k)), VALS4,
                                   opt=need(t, 2) > HARD - 1, order=True, tag='leaf-' + name)


def part_right(tier):
    """deepening chains: right-nested, left-nested and balanced, far beyond the registers; correct or diagnosed"""
    L = {'var': 'a', 'elem': 'm[i]', 'deref': '*p', 'call': 'k@(a)', 'gl': 'g@', 'cast': '(char)a', 'long': 'l', 'idx': 'm[m[0] & 1]',
         'const': '3', 'cond': '(a ? b : 2)', 'not': '!a', 'neg': '-b'}
    pre = 'int g@; int k@(int x) { return x + 2; }\n'
    setup = 'int m[3]; m[0] = a; m[1] = b; m[2] = 5; int i = 1; int *p = &b; long l = 9; g@ = 4;'
    for name, x in L.items():
        for op in ['+', '-', '*', '&', '<', '==', '<<', '%', '/', '&&', '||', '>>', '|', '^', '!=']:
            for n in range(1, 21):
                for e in ['(%s %s ' % (x, op) * n + x + ')' * n, '(' * n + x + ' %s %s)' % (op, x) * n]:
                    yield Unit(pre + 'long f@(int a, int b) { %s return %s; }' % (setup, e), [(1, 1), (2, 3), (-5, 2)],
                               opt=n > 4 and e.startswith('(' + x), tag='chain')
    for n in range(1, 9):
        def bal(k):
            return 'a' if k == 0 else '(%s - %s)' % (bal(k - 1), bal(k - 1).replace('a', 'b', 1))
        yield Unit('int f@(int a, int b) { return %s; }' % bal(n), [(1, 2), (5, 9)], opt=n > HARD - 2, tag='balanced')


def part_stmt(tier):
    """values alive across statements' control flow: conditions, subscripts and assignments nested in operands"""
    ins = ['(a ? b : c)', '(a && b)', '(a || c)', '(a ? (b ? c : d) : a)', '((a < b) ? c - d : c + d)', '(a == 1 ? k@(b) : c)', '(a && k@(b))',
           '(!a ? b : k@(c))', '(a ? b && c : c || d)', '(x = a)', '(x = a ? b : c)', 'x++', '--x', '(x += b)', '(m[1] = c)', 'm[a & 1]', 'm[k@(0) & 1]++']
    for i, e1 in enumerate(ins):
        for e2 in ins:
            for op in ['+', '-', '*', '<']:
                yield Unit('int k@(int x) { return x * 2 + 1; }\nint f@(%s) { int x = 4; int m[3]; m[0] = 1; m[1] = 2; m[2] = 3; int r = (a - b) %s (%s - %s); '
                           'tv(x); tv(m[0]); tv(m[1]); return r; }' % (PARAMS, op, e1, e2), [(0, 0, 5, 2), (1, 0, 5, 2), (1, 3, 0, 1)], order=True,
                           tag='control')
                if op in '+-':
                    yield Unit('int k@(int x) { return x * 2 + 1; }\nint f@(%s) { int x = 4; int m[3]; m[0] = 1; m[1] = 2; m[2] = 3; '
                               'int r = (a * b - (c %s %s)) %s d; tv(x); tv(m[0]); tv(m[1]); return r; }' % (PARAMS, op, e1, op), [(0, 0, 5, 2), (1, 0, 5, 2), (1, 3, 0, 1)],
                               order=True, tag='control2')


def part_div(tier):
    """division, remainder and shifts need fixed registers: every position among live values, parameters and calls"""
    fx = ['/', '%', '<<', '>>']
    for n in (3, 4, 5):
        for t in shapes(n):
            for pos in range(n - 1):
                for o in fx:
                    ops = ['+'] * (n - 1)
                    ops[pos] = o
                    for pos2 in range(n - 1):
                        if pos2 != pos:
                            for o2 in fx if n < 5 else [fx[(pos + pos2) % 4]]:
                                ops2 = list(ops)
                                ops2[pos2] = o2
                                yield Unit('int f@(%s) { return %s; }' % (PARAMS, expr(t, ops2, VARS)), VALS4, tag='fixed-reg')
    for n in range(1, 9):
        ps = ', '.join('int a%d' % i for i in range(n))
        for o in fx:
            for i in range(n):
                for j in range(n):
                    yield Unit('long f@(%s) { long r = a%d %s a%d; tv(r); return %s; }' % (
                        ps, i, o, j, ' + '.join('a%d * %d' % (k, k + 1) for k in range(n))), [tuple(20 - 2 * k for k in range(n)), tuple(k + 1 for k in range(n))],
                        tag='fixed-reg-params')
                    if n >= 2 and i != j:
                        yield Unit('long f@(%s) { return tii(a%d %s a%d, a%d %s a%d) + a0; }' % (ps, i, o, j, j, o, i),
                                   [tuple(9 - k for k in range(n)), tuple(k + 1 for k in range(n))], tag='fixed-reg-args')


def part_depth(tier):
    """an operation that needs fixed registers, carried out while k values are held, for every k: by variable, by constant, of a call,
    nested in another one, with the held values used afterwards in every order"""
    inner = []
    for o in ['/', '%', '<<', '>>']:
        inner += ['(a %s b)' % o, '(a %s 3)' % o, '(9 %s b)' % o, '((a %s 3) %s 2)' % (o, o), '(a %s (b %s 1))' % (o, o), '((a + 1) %s 3 - (b + 2) %s 2)' % (o, o),
                  '(k@(a) %s 3)' % o, '(a %s k@(2))' % o, 'k@(a %s 3)' % o, 'm[(a %s 3) & 1]' % o, '(m[0] %s 3)' % o, '((char)a %s 3)' % o, '((unsigned int)a %s 3u)' % o,
                  '((long)a %s 3)' % o, '(a %s 3l)' % o, '((a %s 3) ? (b %s 2) : 5)' % (o, o)]
        for o2 in ['/', '%', '<<', '>>', '*', '<']:
            inner += ['((a %s 3) %s (b %s 2))' % (o, o2, o), '((a %s b) %s 3)' % (o2, o)]
    inner += ['(a * 3)', '(3 * a)', '(a < 3)', '(3 < a)', '(a == 3)', '!a', '-a', '~a', '(a && b)', '(a ? 3 : b)', 'k@(a)', 'k@(k@(a))', 'kk@(a, b, 3, a, b, 4)',
              'kk@(a / 3, b % 2, a << 1, a >> 1, b / 2, 6 / b)', 'kp(a)', 'kp(a / 3)', 'kkp(a, b, 3, a, b, 4)', '(*kkp)(a / 3, b % 2, a << 1, a >> 1, b / 2, 6 / b)', 'kp(kp(a))', '*&a', 'm[a & 1]', '*(p + 1)', '(int)(p + 1 - m)', '(x = a)', 'x++', '--x', '(x += 3)', '(x *= b)', '(x <<= 2)', '(m[1] = 3)', 'm[a & 1]++']
    pre = 'int k@(int x) { return x * 2 + 1; }\nint kk@(int a, int b, int c, int d, int e, int f) { return a + b * 2 + c * 3 + d * 4 + e * 5 + f * 6; }\n'
    setup = 'int m[3]; m[0] = a; m[1] = b; m[2] = 7; int *p = m; int x = 4; int (*kp)(int) = k@; int (*kkp)(int, int, int, int, int, int) = kk@;'
    hold = ['c', 'd', '(c + 1)', '(d * c)']
    for k in range(0, 13 if tier == "thorough" else 11):
        for ii, e in enumerate(inner):
            for oi, ops in enumerate([['-'], ['*', '-', '+'], ['^', '+'], ['<', '-']]):
                if k == 0 and oi:
                    break
                s = e
                for j in range(k):
                    s = '(%s %s %s)' % (hold[j % 4], ops[j % len(ops)], s)
                yield Unit(pre + 'long f@(%s) { %s long r = %s; tv(x); tv(m[0]); tv(m[1]); return r; }' % (PARAMS, setup, s), [(7, 3, 5, 2), (20, 1, 3, 11)],
                           opt=k > 4, order=True, tag='depth')


PARTS = [('depth', part_depth), ('shapes', part_shapes), ('leaves', part_leaves), ('chains', part_right), ('control', part_stmt), ('fixed-registers', part_div)]
