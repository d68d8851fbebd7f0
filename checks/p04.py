"""Control flow: every statement tree up to a size, under every decision sequence."""
from harness import *
from gen import *
import functools

# statement trees as nested tuples; context: l = inside loop, s = inside switch
PRE = ('int w@; int d@(void) { int b = w@ & 1; w@ = w@ >> 1; tv(100 + b); return b; }\n'
       'int e@(void) { int b = w@ & 3; w@ = w@ >> 2; tv(200 + b); return b; }\n')

COND = ['d@()', 'd@() == 1', 'd@() != 0', 'd@() > 0', 'd@() >= 1', '0 < d@()', '1 <= d@()', '!!d@()', '1 == d@()',
        '!(d@() == 0)', 'd@() && 1', '0 || d@()', '-d@()', '(d@() ? 1 : 0)', '!(d@() < 1)', '(char)d@()', 'd@() + 0']


@functools.lru_cache(None)
def trees(n, l, s):
    """all statements with n nodes; l: in a loop, s: in a switch (break allowed)"""
    out = []
    if n == 1:
        out = [('T',), ('R',)]
        if l or s:
            out.append(('B',))
        if l:
            out.append(('C',))
        return tuple(out)
    for a in trees(n - 1, l, s):
        out.append(('if', a))
    for a in trees(n - 1, 1, s):
        out.append(('while', a))
        out.append(('for', a))
    for k in range(1, n - 1):
        for a in trees(k, l, s):
            for b in trees(n - 1 - k, l, s):
                out.append(('else', a, b))
                out.append(('seq', a, b))
    # a switch with one or two labelled groups
    for a in trees(n - 1, l, 1):
        out.append(('sw1', a))
    for k in range(1, n - 1):
        for a in trees(k, l, 1):
            for b in trees(n - 1 - k, l, 1):
                out.append(('sw2', a, b))
                out.append(('swd', a, b))
    return tuple(out)


class R:
    def __init__(self, rot):
        self.n = 0
        self.c = rot

    def cond(self):
        self.c += 1
        return COND[self.c % len(COND)]

    def r(self, t):
        k = t[0]
        if k == 'T':
            self.n += 1
            return 'tv(%d);' % self.n
        if k == 'R':
            self.n += 1
            return 'return %d;' % (1000 + self.n)
        if k == 'B':
            return 'break;'
        if k == 'C':
            return 'continue;'
        if k == 'N':
            return ';'
        if k == 'if':
            return 'if (%s) %s' % (self.cond(), self.r(t[1]))
        if k == 'else':
            c = self.cond()
            a = self.r(t[1])
            if t[1][0] in ('if', 'while', 'for', 'else', 'sw1'):
                a = '{ %s }' % a
            return 'if (%s) %s else %s' % (c, a, self.r(t[2]))
        if k == 'while':
            return 'while (%s) %s' % (self.cond(), self.r(t[1]))
        if k == 'for':
            self.n += 1
            i = self.n
            return 'for (tv(%d); %s; tv(%d)) %s' % (300 + i, self.cond(), 400 + i, self.r(t[1]))
        if k == 'seq':
            return '{ %s %s }' % (self.r(t[1]), self.r(t[2]))
        if k == 'sw1':
            return 'switch (e@()) { case 1: %s }' % self.r(t[1])
        if k == 'sw2':
            return 'switch (e@()) { case 1: %s case 2: %s }' % (self.r(t[1]), self.r(t[2]))
        if k == 'swd':
            return 'switch (e@()) { case 2: %s default: %s }' % (self.r(t[1]), self.r(t[2]))
        raise KeyError(k)


def part_trees(tier):
    top = 5 if tier != 'thorough' else 6
    for n in range(1, top + 1):
        bits = {1: 2, 2: 4, 3: 5, 4: 6, 5: 5, 6: 4}[n]
        words = [(w,) for w in range(1 << bits)]
        for i, t in enumerate(trees(n, 0, 0)):
            body = R(i).r(t)
            yield Unit(PRE + 'int f@(int w) { w@ = w; %s tv(0); return 7; }' % body, words, tag='tree')


def part_pairs(tier):
    """sequences of two and three small statements: what follows a statement is reached properly"""
    small = [t for n in (1, 2, 3) for t in trees(n, 0, 0)]
    n2 = small if tier == 'thorough' else [t for n in (1, 2) for t in trees(n, 0, 0)] + list(trees(3, 0, 0))[::3]
    for i, a in enumerate(n2):
        for j, b in enumerate(n2):
            r = R(i + j)
            yield Unit(PRE + 'int f@(int w) { w@ = w; %s %s tv(0); return 7; }' % (r.r(a), r.r(b)),
                       [(w,) for w in range(32)], tag='pair')


def part_switch(tier):
    """all label/statement sequences in a switch"""
    items = ['case 0:', 'case 1:', 'case 2:', 'default:', 'T', 'B', 'I']
    n = 5 if tier != 'thorough' else 6
    for k in range(0, n + 1):
        for seq in itertools.product(items, repeat=k):
            labs = [x for x in seq if x.endswith(':')]
            if len(set(labs)) != len(labs):
                continue
            # canonical: labels case 0/1/2 appear in all orders; statements before the first label are unreachable
            if seq and seq[-1].endswith(':'):
                seq = seq + (';',)
            m = 0
            out = []
            for x in seq:
                if x == 'T':
                    m += 1
                    out.append('tv(%d);' % m)
                elif x == 'B':
                    out.append('break;')
                elif x == 'I':
                    m += 1
                    out.append('if (x == 1) { tv(%d); break; }' % (50 + m))
                else:
                    out.append(x)
            yield Unit('int f@(int x) { switch (x) { %s } tv(0); return 7; }' % ' '.join(out), [(v,) for v in (-1, 0, 1, 2, 3)],
                       tag='switch')


def part_switch_labels(tier):
    """label values, controlling types, labels spelled as characters and enumerators, nested switches"""
    ls = ['0', '1', '2147483647', "'a'", '0x10', 'E1', '65535', '65536', '255', '256', '128', '127']
    for a in ls:
        for b in ls:
            if a == b:
                continue
            for t in ['int', 'char', 'long', 'unsigned int', 'unsigned long']:
                o = TOBJ[t]
                vs = [v for v in (0, 1, 2147483647, 97, 16, 5, 65535, 65536, 255, 256, 128, 127, -1, 98, (1 << 32), (1 << 32) + 1,
                                  (1 << 32) + 255, -2147483648) if o.lo <= v <= o.hi]
                yield Unit('enum Q@ { E0@, E1@ = 5 };\nint f@(%s x) { switch (x) { case %s: return 1; case %s: return 2; default: return 3; } }' % (
                    t, a.replace('E1', 'E1@'), b.replace('E1', 'E1@')), [(v,) for v in vs], tag='switch-label')
    # labels beyond int, converted to the promoted type of the controlling expression
    wide = {'0': 0, '1': 1, '4294967296': 1 << 32, '4294967297l': (1 << 32) + 1, '2147483648': 1 << 31, '0x80000000': 1 << 31, '4294967295': (1 << 32) - 1, '4294967295u': (1 << 32) - 1, '0xffffffff': (1 << 32) - 1,
            '9223372036854775807': (1 << 63) - 1, '0x7fffffffffffffff': (1 << 63) - 1, '18446744073709551615ul': (1 << 64) - 1, '0x8000000000000000': 1 << 63, '2147483647': (1 << 31) - 1, '1099511627776l': 1 << 40}
    for a, b in itertools.product(wide, repeat=2):
        for t in ['long', 'unsigned long', 'int', 'unsigned int', 'char', 'long long', 'unsigned long long']:
            o = TOBJ[t]
            vs = sorted({v for w in wide.values() for v in (w, w - 1, w + 1, -w, w - (1 << 32), w - (1 << 64)) if o.lo <= v <= o.hi})
            yield Unit('int f@(%s x) { switch (x) { case %s: return 1; case %s: return 2; } return 3; }' % (t, a, b), [(v,) for v in vs], tag='switch-wide', maybe=True)
    for o in itertools.permutations(['case 0: tv(10);', 'case 1: tv(11);', 'default: tv(12);']):
        for i in itertools.permutations(['case 0: tv(20);', 'case 1: tv(21);', 'default: tv(22);']):
            for at in range(4):
                for br in range(3):
                    inner = list(i)
                    if br:
                        inner.insert(br, 'break;')
                    outer = list(o)
                    outer.insert(at, 'switch (y) { %s } tv(30); ' % ' '.join(inner) + ('break;' if br == 1 else ''))
                    if at == 0:
                        continue
                    yield Unit('int f@(int x, int y) { switch (x) { %s } tv(0); return 7; }' % ' '.join(outer),
                               [(x, y) for x in (0, 1, 2) for y in (0, 1, 2)], tag='switch-nested')
    # switch inside loops: break leaves the switch, continue the iteration
    for a in ['break;', 'continue;', 'tv(1);', 'return 9;', '']:
        for b in ['break;', 'continue;', 'tv(2);', 'return 9;', '']:
            for c in ['break;', 'continue;', 'tv(3);', ';']:
                for loop in ['for (i = 0; i < 4; i++)', 'while (i++ < 4)']:
                    yield Unit('int f@(int k) { int i = 0; %s { switch (i + k) { case 1: %s case 2: %s default: %s } tv(40 + i); } '
                               'tv(i); return 7; }' % (loop, a, b, c), [(0,), (1,), (2,)], tag='switch-loop')


def part_loops(tier):
    """for with every subset of its clauses, break/continue at every position, nested to depth 3"""
    for ini in ['', 'i = a', 'tv(1)']:
        for cond in ['', 'i < 4', 'i != 4', '4 > i', 'i < a + 2 && i < 4', 'd@()']:
            for step in ['', 'i++', 'i = i + 2', '++i', 'i += 1']:
                for body in ['tv(i);', '{ tv(i); }', ';', '{}', '{ if (i == 2) continue; tv(i); }', '{ if (i == 2) break; tv(i); }',
                             '{ tv(i); i++; }', '{ i++; if (i > 6) break; tv(i); }', '{ if (i++ > 5) return i; }']:
                    yield Unit(PRE + 'int f@(int a) { int i = 0; w@ = 5; for (%s; %s; %s) %s tv(i); return 7; }' % (ini, cond, step, body),
                               [(0,), (1,), (3,), (5,)], tag='for')
    J = ['', 'break;', 'continue;', 'return 5;']
    loops = ['for (%(v)s = 0; %(v)s < 3; %(v)s++)', 'while (%(v)s++ < 3)']
    for l1 in loops:
        for l2 in loops:
            for j1 in J:
                for j2 in J:
                    for j3 in J:
                        for j4 in J:
                            yield Unit('int f@(int p, int q) { int i = 0; int j = 0; %s { if (i == p) { tv(1); %s } j = 0; %s { '
                                       'if (j == q) { tv(2); %s } tv(10 * i + j); if (i + j == 4) { tv(3); %s } } '
                                       'if (i == q) { tv(4); %s } tv(100 + i); } return 7; }' % (
                                           l1 % dict(v='i'), j1, l2 % dict(v='j'), j2, j3, j4),
                                       [(x, y) for x in (0, 1, 9) for y in (1, 2)], tag='nested-loops')


def part_else(tier):
    """dangling else: every bracketing of nested ifs"""
    def ifs(n):
        if n == 0:
            return ['T']
        out = []
        for a in ifs(n - 1):
            out.append('if (C) ' + a)
            out.append('if (C) { %s }' % a)
        for k in range(n):
            for a in ifs(k):
                for b in ifs(n - 1 - k):
                    out.append('if (C) %s else %s' % (a, b))
                    out.append('if (C) { %s } else %s' % (a, b))
        return list(dict.fromkeys(out))
    for n in range(1, 4 if tier != 'thorough' else 5):
        for s in ifs(n):
            m = [0, 0]
            out = ''
            for ch in s:
                if ch == 'T':
                    m[0] += 1
                    out += 'tv(%d);' % m[0]
                elif ch == 'C':
                    out += '(x >> %d & 1)' % m[1] if m[1] else '(x & 1)'
                    m[1] += 1
                else:
                    out += ch
            yield Unit('int f@(int x) { %s tv(0); return 7; }' % out, [(v,) for v in range(1 << n)], tag='else')


class RC(R):
    """conditions are taken from a given sequence; endless loops get a way out"""
    FUEL = 'int u@; int fu@(void) { u@ = u@ + 1; return u@ > 2; }\n'

    def __init__(self, conds):
        self.n = 0
        self.cs = list(conds)
        self.i = 0

    def cond(self):
        c = self.cs[self.i % len(self.cs)]
        self.i += 1
        return c

    def r(self, t):
        k = t[0]
        if k == 'lab':
            return t[1] + ' ' + self.r(t[2])
        if k in ('while', 'for'):
            c = self.cond()
            b = self.r(t[1])
            if 'd@' not in c or '||' in c:
                b = '{ if (fu@()) break; %s }' % b
            if k == 'while':
                return 'while (%s) %s' % (c, b)
            self.n += 1
            return 'for (tv(%d); %s; tv(%d)) %s' % (300 + self.n, c, 400 + self.n, b)
        if k == 'else':
            c = self.cond()
            a = self.r(t[1])
            x = t[1]
            while x[0] == 'lab':
                x = x[2]
            if x[0] in ('if', 'while', 'for', 'else', 'sw1', 'sw2', 'swd'):
                a = '{ %s }' % a
            return 'if (%s) %s else %s' % (c, a, self.r(t[2]))
        return R.r(self, t)


def nconds(t):
    if t[0] == 'lab':
        return nconds(t[2])
    return (t[0] in ('if', 'else', 'while', 'for')) + sum(nconds(x) for x in t[1:] if isinstance(x, tuple))


CONST = ['0', '1', '2', '-1', '0u', '1l', "'a'", "'\\0'", '!0', '!1', '1 - 1', '1 - 2', 'sizeof(int)', 'E0@', 'E1@', '(0)', '(char)256', '(char)257', '4294967296', '0 && d@()', '1 || d@()', '1 && d@()', '0 || d@()', 'd@() && 0',
         'd@() || 1', '0 * d@()', 'd@() * 0', '0 == 0', '1 < 0', '"s"', '0 ? d@() : 1', '1 ? d@() : 0', 'd@() ? 0 : 0', 'd@() ? 1 : 1', 'd@() - d@()', '(void *)0', '~0', '~-1', '1 == 1l', '-1 < 0u', '(c@ = 0)', '(c@ = 3)', '(c@ = d@())']


def part_const(tier):
    """constant conditions of every spelling in every statement: nothing that can be reached is dropped, nothing else runs"""
    pre = PRE + RC.FUEL + 'enum Q@ { E0@, E1@ }; int c@;\n'
    top = 4 if tier == 'thorough' else 3
    for n in range(2, top + 1):
        for t in trees(n, 0, 0):
            k = nconds(t)
            if k == 0:
                continue
            for cs in itertools.product(['0', '1', 'd@()'] if n < 4 else ['0', '1'], repeat=k):
                if set(cs) != {'d@()'}:
                    yield Unit(pre + 'int f@(int w) { w@ = w; u@ = 0; c@ = 5; %s tv(0); return 7; }' % RC(cs).r(t), [(w,) for w in range(16)], tag='const')
            if n <= 3:
                for c in CONST:
                    for rest in ['d@()', '1']:
                        yield Unit(pre + 'int f@(int w) { w@ = w; u@ = 0; c@ = 5; %s tv(c@); return 7; }' % RC([c, rest]).r(t), [(w,) for w in range(4 if n < 3 else 8)], tag='const-form')
    for c in CONST[:8] + ['3', '(char)300', "'b'", 'E1@', '2147483648']:
        for body in ['case 0: tv(1); case 1: tv(2); break; default: tv(3);', 'case 1: return 4; case 3: tv(5);', 'default: tv(1); case 97: tv(2);', 'tv(8);', ';', 'case 0: ;', 'tv(1); if (d@()) { case 1: tv(2); }', 'case 44: tv(6); default: ;', 'case 98: tv(7);']:
            yield Unit(pre + 'int f@(int w) { w@ = w; switch (%s) { %s } tv(0); return 7; }' % (c, body), [(0,), (1,)], tag='const-switch')


def part_compare(tier):
    """comparisons of every relation and type pair, at their boundary and in every combination with && || !, decide every statement"""
    for a in TYPES:
        for b in TYPES:
            cs = [(x, y) for x in SV[a][::2] for y in sorted(set(TV[b][:1]) | {v for v in (x, x + 1, x - 1) if TOBJ[b].lo <= v <= TOBJ[b].hi})]
            for op in CMP:
                for c in ['R', '!(R)', 'R || d@()', 'R && d@()', 'd@() || R', 'd@() && R', '!(R || d@())', '!(R && d@())', '(R || d@()) && d@()', '(R && d@()) || d@()', 'R ? d@() : 1', '(R) == 0', '(R) != 1', '!(R) || R', '!!(R)']:
                    c = c.replace('R', 'a %s b' % op)
                    for st in ['if (C) tv(1);', 'if (C) tv(1); else tv(2);', 'while (C) { tv(3); break; }', 'for (; C; ) { tv(4); if (d@()) continue; break; }', 'switch (C) { case 0: tv(5); break; case 1: tv(6); }'] if a == b or tier == 'thorough' else ['if (C) tv(1); else tv(2);', 'while (C) { tv(3); break; }']:
                        yield Unit(PRE + 'int f@(%s a, %s b) { w@ = 2; %s tv(0); return 7; }' % (a, b, st.replace('C', c)), cs, tag='compare')



def part_operands(tier):
    """every kind of expression on its own and on each side of every relation decides every statement"""
    K = ['a', '0', '1', '-1', '(a < b)', '(a == b)', '(a != 1)', '(a >= b)', '(a && b)', '(a || d@())', '!a', '!(a == b)', '(a ? b : 2)', '(a ? a == b : b)', '(a + b)', '(a & b)', '-a', '~a', 'i@(a)', '(a = b)', '(a += 1)', 'a++', '--a', '(char)a', '(long)a',
         '(unsigned int)a', 'x[a & 1]', '*p', 's.m', 'h@', '(a == (b == 1))', "'b'", '(a - b)', 'w@', 'e@()']
    pre = PRE + 'int h@ = 1; struct s@ { char k; int m; }; int i@(int a) { return a; }\n'
    head = 'int f@(int a, int b) { int x[2] = {0, 1}; int *p; struct s@ s = {3, 1}; p = &b; w@ = 1; '
    ST = ['if (C) tv(1);', 'if (C) tv(1); else tv(2);', 'while (C) { tv(3); break; }', 'for (; C; ) { tv(4); if (d@()) continue; break; }', 'tv((C) ? 5 : 6);', 'tv((C) ? d@() : 6);', 'switch (C) { case 0: tv(5); break; case 1: tv(6); }', 'tv(C);', 'tv(!(C));', 'tv((C) && d@());', 'tv((C) || d@());', 'if ((C) && d@()) tv(7);', 'if (d@() || (C)) tv(8); else tv(9);', 'if (!(C)) tv(1); else tv(2);', 'x[0] = (C) ? (C) : 4; tv(x[0]);']
    cs = [(0, 0), (0, 1), (1, 0), (1, 1), (2, 2), (-1, 1), (256, 1)]
    for c in K:
        for st in ST:
            yield Unit(pre + head + st.replace('C', c) + ' tv(a); tv(b); return 7; }', cs, tag='operands', order=True)
    for x, y in itertools.product(K, repeat=2):
        for op in CMP:
            for st in ST if tier == 'thorough' else ST[1:14:3] if op in ('==', '<') else ST[2::4] if op in ('!=', '>=') else ST[::5]:
                c = '%s %s %s' % (x, op, y)
                yield Unit(pre + head + st.replace('C', c) + ' tv(a); tv(b); return 7; }', cs, tag='operands', order=True)
    C = ['a', '!a', 'i@(a)', 'a && b', 'a || b'] + ['a %s %s' % (op, y) for op in CMP for y in ('b', '1')]
    for c in C:
        for x, y in itertools.product(K + C, repeat=2):
            if x in C and y in C or (K + C).index(x) % 4 == (K + C).index(y) % 4 or tier == 'thorough':
                yield Unit(pre + head + 'int r = %s ? %s : %s; tv(r); if (%s ? %s : %s) tv(1); if (!(%s ? %s : %s)) tv(2); else if (%s) tv(%s); else tv(%s); tv(a); tv(b); return 7; }' % (
                    (c, x, y) * 4), cs, tag='operands-choice', order=True)


def nodes(t, path=()):
    """paths to the nodes that can carry a label of the enclosing switch"""
    yield path
    if t[0] not in ('sw1', 'sw2', 'swd'):
        for i, x in enumerate(t[1:], 1):
            if isinstance(x, tuple):
                for y in nodes(x, path + (i,)):
                    yield y


def put_labels(t, labs, path=()):
    r = t if t[0] in ('sw1', 'sw2', 'swd') else (t[0],) + tuple(put_labels(x, labs, path + (i,)) if isinstance(x, tuple) else x for i, x in enumerate(t[1:], 1))
    return ('lab', labs[path], r) if path in labs else r


def part_inside(tier):
    """labels at every place of a switch body: inside branches, loop bodies and blocks, with every kind of condition around them"""
    pre = PRE + RC.FUEL
    L = ['case 1:', 'case 2:', 'default:', 'case 1: case 2:']
    sets = [['d@()'], ['0', 'd@()'], ['d@()', '0'], ['1', 'd@()'], ['0'], ['d@()', '1', '0']]
    rot = 0
    for n in range(1, 5):
        for t in trees(n, 0, 1):
            ps = list(nodes(t))
            k = nconds(t)
            for m in range(1, 4):
                for where in itertools.combinations(ps, m):
                    if where == ((),) and n > 2:
                        continue        # covered by the other parts
                    for labs in itertools.permutations(L[:3], m) if m > 1 or n > 2 else [(x,) for x in L]:
                        tt = put_labels(t, dict(zip(where, labs)))
                        if n < 4:
                            css = sets if k else sets[:1]
                        else:
                            rot += 1
                            css = [sets[rot % len(sets)]]
                        for cs in css:
                            yield Unit(pre + 'int f@(int w) { w@ = w; u@ = 0; switch (e@()) %s tv(0); return 7; }' % RC(cs).r(tt), [(w,) for w in range(16 if n < 3 or n == 4 else 32)], tag='inside')
    # declarations that are jumped over or entered past
    for d in ['int y;', 'int y = 5;', 'int y[3]; int z = 4;', 'struct S@ { int a; char b; } y; long z = 3;']:
        v = {'int y;': 'y', 'int y = 5;': 'y'}.get(d, 'y.a' if 'struct' in d else 'y[1]')
        for b in ['{ D case 1: V = 7; tv(V); }', '{ case 1: ; D V = 7; tv(V); case 2: V = 8; tv(V); }', '{ case 0: { D V = 3; case 1: V = 9; tv(V); } case 2: tv(4); }', '{ if (e@()) { D case 1: V = 2; tv(V); } else { D case 2: V = 6; tv(V); } }',
                  '{ for (int i = 0; i < 3; i++) { D case 1: V = 2; tv(V); if (e@() > 1) break; i = 0; } case 2: tv(5); }', '{ while (e@()) { case 1: tv(1); D V = 6; tv(V); case 2: ; } }', '{ D switch (e@()) { D case 1: V = 4; tv(V); } case 1: V = 3; tv(V); }']:
            yield Unit(PRE + 'int f@(int w) { w@ = w; int before = 11; int after = 12; switch (e@()) %s tv(before); tv(after); return 7; }' % b.replace('D', d).replace('V', v), [(w,) for w in range(64)], tag='inside-decl')


def part_return(tier):
    for t in TYPES:
        for body in ['return a;', 'if (a) return 1; return 2;', 'if (a) return a; else return 3;', 'while (a) return 4; return a;',
                     'for (;;) return a;', '{ { return a; } }', 'switch (a) { case 0: return 8; default: return a; }',
                     'int i; for (i = 0; i < 5; i++) if (i == a) return i; return 9;', 'return a; tv(1); return 5;',
                     'tv(1); { int b = 3; return b; }', 'while (1) { if (a) return 1; return 2; }']:
            yield Unit('%s f@(%s a) { %s }' % (t, t, body), [(v,) for v in (0, 1, 2, 3, 7)], tag='return')
    for body in ['return;', 'tv(1); return;', 'if (a) return; tv(2);', 'tv(1);', '', 'while (a) { tv(1); return; } tv(2);',
                 'for (;;) { tv(3); return; }', 'switch (a) { case 1: return; case 2: tv(4); } tv(5);', '{ return; }']:
        yield Unit('void g@(int a) { %s }\nint f@(int a) { g@(a); tv(9); g@(a + 1); return 3; }' % body, [(0,), (1,), (2,)],
                   tag='void-return')


def part_bodies(tier):
    """bodies of every length after labels of every width: statements that need registers and calls in every section"""
    work = ['a = a * 3 + b;', 'b = ti(a) - b;', 'a = (a ^ b) * (a - b) + (b | 3);', 'if (a > b) a = b + 1; else b = a - 2;', 'tvl(a + x);', 'for (i = 0; i < 3; i++) b = b + i * a;', 'a = a > 0 && b < 9 ? b : a + 1;']
    labels = {'long': ['5000000000', '3', '-1', '4294967296', '2147483648', '1099511627776l'], 'unsigned long': ['5000000000', '3', '4294967296', '9223372036854775807'], 'unsigned int': ['3000000000', '3', '2147483648', '0'],
              'int': ['3', '-1', '2147483647'], 'char': ['3', '100'], 'long long': ['5000000000', '-5000000000', '3']}
    for t, ls in labels.items():
        o = TOBJ[t]
        vs = [v for v in (5000000000, 3, -1, 1 << 32, 1 << 31, 1 << 40, (1 << 63) - 1, 3000000000, 0, (1 << 31) - 1, 100, -5000000000, 3 + (1 << 32), 7) if o.lo <= v <= o.hi]
        for k in (1, 2, 3):
            for lab in itertools.permutations(ls, k):
                for n in (1, 2, 3, 5, 8, 12, 20):
                    if (k == 3 or tier != 'thorough') and n in (1, 5, 12) and k > 1:
                        continue
                    for dflt in ('', 'default: ') if k < 3 else ('default: ',):
                        body = ''
                        for i, l in enumerate(lab + (('',) if dflt else ())):
                            body += '%s%s %s ' % ('case %s: ' % l if l else dflt, ' '.join(work[(i * 3 + j + k) % len(work)] for j in range(n)), ('break;', '')[(i + n) % 2])
                        yield Unit('long f@(%s x, int a, int b) { int i; switch (x) { %s } return a * 1000l + b; }' % (t, body), [(v, 2, 5) for v in vs], tag='bodies')


def part_scale(tier):
    """long and deep functions: n statements, n nested blocks/ifs/loops/switch labels"""
    ns = list(range(1, 41)) + [50, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]
    for n in ns:
        yield Unit('int f@(int a) { int s = 0; %s return s; }' % ' '.join('if (a > %d) s = s + %d;' % (i, i + 1) for i in range(n)),
                   [(0,), (n // 2,), (n,)], tag='many-ifs')
        yield Unit('int f@(int a) { switch (a) { %s default: return -1; } }' % ' '.join('case %d: return %d;' % (i * 3, i * 7 + 1) for i in range(n)),
                   [(i,) for i in range(0, 3 * n + 2, max(1, n // 20))], tag='many-cases')
        yield Unit('int f@(int a) { int s = 0; switch (a) { %s } return s; }' % ' '.join('case %d: s = s + %d;' % (n - i, i + 1) for i in range(n)),
                   [(0,), (1,), (n // 2 + 1,), (n,), (n + 1,)], tag='many-fallthrough')
        yield Unit('int f@(int a) { int s = 0; %s return s; }' % ' '.join('while (a > %d) { a = a - 1; s = s + %d; }' % (n - i, i + 1) for i in range(n)),
                   [(0,), (n,), (n + 2,)], tag='many-loops')
        if n <= 64:
            yield Unit('int f@(int a) { %s tv(1); %s return a; }' % ('{ ' * n, '} ' * n), [(3,)], tag='deep-blocks')
            yield Unit('int f@(int a) { %s tv(1); %s return a; }' % (' '.join('if (a > %d) { tv(%d);' % (i, i) for i in range(n)), '} ' * n),
                       [(0,), (n // 2,), (n,), (n + 1,)], tag='deep-ifs')
            yield Unit('int f@(int a) { %s tv(1000); return a; }' % ' '.join('if (a == %d) tv(%d); else' % (i, i) for i in range(n)),
                       [(0,), (n // 2,), (n - 1,), (n,)], tag='else-chain')
            yield Unit('int f@(int a) { int n = 0; %s n++; %s return n; }' % (' '.join('while (a == %d) { a++; ' % (i) for i in range(n)), '} ' * n),
                       [(0,), (1,), (n,)], tag='deep-loops')
            yield Unit('int f@(int a) { int n = 0; %s n = n + 100; %s return n; }' % (
                ' '.join('switch (a) { case 1: n = n + 1; case 2: ' for i in range(n)), '} ' * n), [(0,), (1,), (2,)], tag='deep-switch')


PARTS = [('trees', part_trees), ('pairs', part_pairs), ('switch-sequences', part_switch), ('switch-labels', part_switch_labels),
         ('loops', part_loops), ('dangling-else', part_else), ('return', part_return), ('const-conditions', part_const), ('labels-inside', part_inside), ('comparisons', part_compare), ('operands', part_operands), ('bodies', part_bodies), ('scale', part_scale)]
