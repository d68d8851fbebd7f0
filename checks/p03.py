"""Evaluation: short-circuit, conditional evaluation, sequencing, every operand evaluated exactly once."""
from harness import *
from gen import *
import functools


@functools.lru_cache(None)
def logic_trees(n, neg):
    """all trees over && || ?: (and ! when neg) with n leaves; leaves are the placeholder #"""
    out = []
    if n == 1:
        out = ['#']
    else:
        for k in range(1, n):
            for l in logic_trees(k, neg):
                for r in logic_trees(n - k, neg):
                    for op in ('&&', '||'):
                        out.append('(%s %s %s)' % (l, op, r))
        for i in range(1, n - 1):
            for j in range(1, n - i):
                for c in logic_trees(i, neg):
                    for l in logic_trees(j, neg):
                        for r in logic_trees(n - i - j, neg):
                            out.append('(%s ? %s : %s)' % (c, l, r))
    if neg and n <= 2:
        out = out + ['!' + t for t in out]
    return tuple(out)


def number(t, fmt):
    i = 0
    s = ''
    for ch in t:
        if ch == '#':
            s += fmt % i if '%' in fmt else fmt
            i += 1
        else:
            s += ch
    return s


def part_short(tier):
    """each leaf reports itself when evaluated: the trace shows which leaves ran and in which order"""
    ctx = ['return %s;', 'if (%s) ti(100); else ti(101); return 0;', 'int r = %s; return r;',
           'return tii(5, %s);', 'return (%s) ? 10 : 20;', 'int n = 0; while (%s) { n++; if (n == 2) break; } return n;',
           'return (%s) + 1;', '%s; return 3;', 'int r; r = (%s); return r;', 'return !(%s);',
           'int n; for (n = 0; %s; n++) { if (n == 1) return 7; } return n;', 'return (char)(%s);', 'return -(%s);',
           'switch (%s) { case 0: return 50; case 1: return 51; default: return 52; }',
           'int a[3]; a[0] = 5; a[1] = 6; a[2] = 7; return a[(%s) != 0];']
    top = 5 if tier != 'thorough' else 6
    for n in range(1, top + 1):
        vals = list(itertools.product((0, 2) if n > 3 else (0, 1, -4), repeat=n))
        ps = ', '.join('int v%d' % i for i in range(n))
        for t in logic_trees(n, n <= 4):
            e = ''
            i = 0
            for ch in t:
                if ch == '#':
                    # the trace shows index and value: tii(i, v) records both
                    e += 'g@(%d, v%d)' % (i, i)
                    i += 1
                else:
                    e += ch
            cs = ctx if n <= 3 else (ctx[:5] if n == 4 else ctx[:2] if n == 5 else ctx[:1])
            for c in cs:
                yield Unit('int g@(int i, int v) { tv(i); return v; }\nint f@(%s) { %s }' % (ps, c % e), vals, tag='short-circuit')


def part_once(tier):
    """every operand of every operator is evaluated exactly once (calls counted, order irrelevant)"""
    pre = 'int n@[8]; int k@(int i, int v) { n@[i] = n@[i] + 1; return v; }\n' \
          'void z@(void) { int i; for (i = 0; i < 8; i++) tv(n@[i]); }\n'
    L = ['k@(%d, %s)' % (i, v) for i, v in enumerate('abcd')]
    bops = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '<', '<=', '==', '!=', '>', '>=']
    vals2 = [(7, 2), (-3, 1), (0, 5)]
    vals3 = [(7, 2, 1), (-3, 1, 2), (0, 5, 3)]
    vals4 = [(7, 2, 1, 3), (-3, 1, 2, 1)]

    def u(ps, e, vs, extra='', g=''):
        return Unit('%s%sint f@(%s) { %s long r = %s; z@(); return r; }' % (
            pre, g, ', '.join('int ' + p for p in ps), extra, e), vs, order=True, tag='once')
    for op in bops:
        yield u('ab', '%s %s %s' % (L[0], op, L[1]), vals2)
        yield u('ab', '(%s ? 1 : %s) %s 2' % (L[0], L[1], op), vals2)
        for o2 in bops:
            yield u('abc', '(%s %s %s) %s %s' % (L[0], op, L[1], o2, L[2]), vals3)
            yield u('abc', '%s %s (%s %s %s)' % (L[0], op, L[1], o2, L[2]), vals3)
    for o1 in ['+', '*', '-', '<', '<<']:
        for o2 in ['+', '*', '/', '==']:
            for o3 in ['+', '*', '%', '&']:
                yield u('abcd', '(%s %s %s) %s (%s %s %s)' % (L[0], o1, L[1], o2, L[2], o3, L[3]), vals4)
                yield u('abcd', '%s %s (%s %s (%s %s %s))' % (L[0], o1, L[1], o2, L[2], o3, L[3]), vals4)
    # assignments, subscripts, calls, casts, unary
    A = 'int m[5]; int i; for (i = 0; i < 5; i++) m[i] = i * 10; int *p = m;'
    S = 'struct S@ { int x; int y[3]; }; struct S@ s@; struct S@ *q@(int i) { n@[i] = n@[i] + 1; return &s@; }\n'
    one = [(1, 2), (0, 4), (3, 0)]
    one3 = [(1, 2, 3), (0, 4, 1)]
    for e in ['m[%s]' % L[0], 'm[%s] = %s' % (L[0], L[1]), '*(p + %s) = %s' % (L[0], L[1]), '*(p + %s)' % L[0],
              'm[%s]++' % L[0], '++m[%s]' % L[0], 'm[%s]--' % L[0], '--m[%s]' % L[0], '(*(p + %s))++' % L[0],
              '-%s' % L[0], '~%s' % L[0], '!%s' % L[0], '+%s' % L[0], '(char)%s' % L[0], '(long)%s' % L[0],
              'i = %s' % L[0], 'i += %s' % L[0], 'i -= %s' % L[0], 'i *= %s' % L[0], 'i |= %s' % L[0], 'i <<= %s' % L[0],
              'm[2] += %s' % L[1], '*p -= %s' % L[0], 'm[%s] + m[%s]' % (L[0], L[1]), 'm[%s - %s + 1]' % (L[0], L[0]),
              'm[m[%s] / 10]' % L[0], 'm[%s] = m[%s]' % (L[0], L[1]), 'i = m[%s] = %s' % (L[0], L[1]),
              'tii(%s, %s)' % (L[0], L[1]), 'tii(m[%s], %s) + 1' % (L[0], L[1]), 'm[%s] < m[%s]' % (L[0], L[1]),
              '%s && %s' % (L[0], L[1]), '%s || %s' % (L[0], L[1]), '%s ? m[%s] : 5' % (L[0], L[1]),
              '%s ? 5 : m[%s]' % (L[0], L[1]), '(%s ? m[1] : m[%s]) + %s' % (L[0], L[1], L[0]),
              '&m[%s] - p' % L[0], '*&m[%s]' % L[0], '(&m[%s] == p)' % L[0]]:
        yield u('ab', e, one, A)
        yield u('ab', '(%s) + 1' % e, one, A)
        yield u('ab', '(%s) ? 3 : 4' % e, one, A)
        yield u('ab', '!(%s)' % e, one, A)
    for e in ['q@(0)->x', 'q@(0)->x = %s' % L[1], 'q@(0)->x++', '--q@(0)->x', 'q@(0)->y[%s - %s] = 5' % (L[1], L[1]),
              'q@(0)->y[1] + q@(2)->x', '(*q@(0)).x', '(*q@(0)).x = %s' % L[1], 'q@(0)->x = q@(2)->x']:
        yield u('ab', e, one, 's@.x = 3; s@.y[0] = 4; s@.y[1] = 5;', S)
    # statement positions
    for st in ['if (%s) ; else ;' % L[0], 'while (%s) break;' % L[0], 'for (i = %s; i < %s; i++) ;' % (L[0], 'b'),
               'switch (%s) { case 1: ; default: ; }' % L[0], '%s;' % L[0], '{ int t = %s; i = t; }' % L[0],
               'int t[2] = {%s, %s}; i = t[0] - t[1];' % (L[0], L[1]), 'for (i = 0; i < 1; i += %s + 5) ;' % L[0]]:
        yield Unit('%sint f@(int a, int b) { int i; %s z@(); return 0; }' % (pre, st), one, order=True, tag='once-stmt')
    yield Unit(pre + 'int g@(int a) { return %s; }\nint f@(int a, int b) { int r = g@(a); z@(); return r; }' % L[0], one,
               order=True, tag='once-return')


def part_lvalue(tier):
    """side effects in lvalues and in increments; each has its effect once and yields the right value"""
    A = 'int m[6]; int *p = m + 2; int i = 2; int j; int *q; for (j = 0; j < 6; j++) m[j] = j * 10; j = a; '
    D = ' for (j = 0; j < 6; j++) tv(m[j]); tv(i); tv(p - m); '
    E = ['m[i++] = j', 'm[++i] = j', 'm[i--] = j', 'm[--i] = j', '*p++ = j', '*++p = j', '*p-- = j', '*--p = j',
         '(*p)++', '++*p', '(*p)--', '--*p', '*p++', '*++p', '*p--', '*--p', 'm[i++]++', '++m[i++]', 'm[--i]--',
         '--m[++i]', '(*p++)++', '++*p++', '++*++p', '(*--p)--', 'p[1]++', 'p[-1]--', '*(p + 1) = j', '*(p - 2) = j',
         '*(p++ + 1) = j', 'p[i - 1] = j', 'm[m[1] / 10] = j', 'm[i] = m[i] + j', 'm[i] += j', 'm[i + 1] -= j',
         '*p += j', '*(p + 1) *= j', 'p[1] |= j', 'p += 1', 'p -= 1', 'p += a - a + 2',          'j = i++', 'j = ++i', 'j = i--', 'j = --i', 'j = -i++', 'j = !i--', 'j = i++ * 2', 'm[1] = m[2] = m[3] = j',
         'i = j = 4', '*(q = p) = j', '*(q = p + 1) = j', 'm[i = 3] = j', 'm[(i = 3)] = j', '*&m[i] = j',
         '*&i = 3', '(i)++', '++(i)', '(m[i])++', '*(&m[1]) = j', 'i++ && j', 'j && i++', 'i++ || j', 'j || i++',
         'j ? i++ : i--', 'j ? p++ : p--', '*(j ? p : m) = 9', 'm[j ? 1 : 2] = 9', '(j ? i : i)', 'j = (i = 1) + 1']
    for e in E:
        for use in ['%s;', 'r = (%s);'] if not ('? p' in e or 'p++' == e or e[:3] in ('p +', 'p -')) else ['%s;']:
            yield Unit('int f@(int a) { long r = 0; ' + A + use % e + D + ' return r; }', [(0,), (7,), (-1,)], order=True,
                       tag='lvalue')
    # all pairs of statements
    for e1 in E:
        for e2 in E:
            yield Unit('int f@(int a) { ' + A + e1 + '; ' + e2 + ';' + D + ' return j; }', [(0,), (7,)], order=True,
                       tag='lvalue-pair')
    for t in ['char', 'long', 'unsigned int']:
        for e in E:
            if 'i' in e or 'q' in e:
                continue
            yield Unit('int f@(int a) { %s m[6]; %s *p = m + 2; int i = 2; int j; for (j = 0; j < 6; j++) m[j] = j * 10; j = a; '
                       % (t, t) + e + ';' + D + ' return 0; }', [(0,), (7,)], order=True, tag='lvalue-' + t)
    # pointer to pointer, struct member pointers
    B = 'struct N@ { int v; struct N@ *n; int w[2]; };\n'
    S = 'struct N@ a; struct N@ b; struct N@ c; struct N@ *p = &a; struct N@ **pp = &p; a.v = 1; b.v = 2; c.v = 3; a.n = &b; ' \
        'b.n = &c; c.n = &a; a.w[0] = 4; a.w[1] = 5; b.w[0] = 6; b.w[1] = 7; c.w[0] = 8; c.w[1] = 9; '
    T = ' tv(a.v); tv(b.v); tv(c.v); tv(a.w[0]); tv(a.w[1]); tv(b.w[0]); tv(b.w[1]); tv(c.w[0]); tv(p->v); tv(p->n->v); '
    G = ['p->v = x', 'p->n->v = x', 'p->n->n->v = x', 'p = p->n', '*pp = p->n', '*pp = &c', '(*pp)->v = x', '(**pp).v = x',
         'p->v++', '++p->n->v', 'p->n->w[1] = x', 'p->n->w[0]++', '(*p).n = &c', 'p->n = p->n->n', 'a.n->n->v--',
         'p->v += x', 'p->n->v -= x', '*(p->w) = x', '*(p->n->w + 1) = x', 'p->w[1] *= x', '(*p->n).v = x',
         'p->n->n = p']
    for g1 in G:
        for g2 in G:
            yield Unit(B + 'int f@(int x) { ' + S + g1 + '; ' + g2 + ';' + T + ' return 0; }', [(11,)], tag='links')


def part_sequence(tier):
    """full expressions are complete before the next starts; call arguments complete before the call"""
    S = ['a = a + 1;', 'b = a;', 'tv(a);', 'a = ti(b);', 'g@ = a;', 'a = g@ + b;', 'inc@();', 'b = rd@();', 'a++; tv(a++);',
         'set@(&a);', 'b = sw@(&a, &b);', 'if (a > b) tv(b);', 'a = rd@() + 1;', 'g@ = rd@() * 2;', 'set@(&g@);']
    pre = 'int g@; void inc@(void) { g@ = g@ + 1; } int rd@(void) { return g@; } void set@(int *p) { *p = *p + 3; } ' \
          'int sw@(int *p, int *q) { int t = *p; *p = *q; *q = t; return t + 1; }\n'
    n = 3 if tier != 'thorough' else 4
    for seq in itertools.product(S, repeat=n):
        yield Unit(pre + 'int f@(int a) { int b = 2; g@ = 5; ' + ' '.join(seq) + ' tv(a); tv(b); tv(g@); return a; }', [(1,)],
                   order=True, tag='sequence')


def part_compound_once(tier):
    """compound assignment evaluates its left operand once"""
    pre = 'int n@; int m@[4]; int k@(int i) { n@ = n@ + 1; return i; } int *q@(void) { n@ = n@ + 1; return m@; }\n'
    for op in ['+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=']:
        for fid, lhs in [('call-subscript', 'm@[k@(1)]'), ('call-deref', '*q@()')]:
            yield Unit(pre + 'int f@(int a) { m@[0] = 20; m@[1] = 21; m@[2] = 22; m@[3] = 23; n@ = 0; %s %s a; tv(n@); tv(m@[0]); '
                       'tv(m@[1]); tv(m@[2]); tv(m@[3]); return 0; }' % (lhs, op), [(3,)], tag='compound-once',
                       finding='compound-lhs-twice:%s:%s' % (fid, op))


BOPS = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '<', '<=', '==', '!=', '>', '>=', '&&', '||']
# an expression whose value is known, or that looks as if it were not needed, still has all its side effects
EFF = ['k@(0, a)', 'x++', '--x', '(x = a)', '*p++', '(m@[1] = a)', '(x += 3)', '(k@(0, a) && k@(1, b))', '(a ? x++ : --x)']
PURE = ['0', '1', '-1', '2', '0l', '1u', '(char)0', "'a'", 'c', '4ul', '(0)', '(1 - 1)', '!1', '0ul', '(a - a)', '65536', '4294967296']
CTX = ['r = E;', 'E;', '(void)(E);', 'if (E) tv(50); else tv(51);', 'while (E) { tv(52); break; }', 'for (; E; tv(53)) { if (n@[7]++ > 1) break; }', 'for (E; 0; E) ;', 'r = tii(E, 4);', 'r = (E) ? 3 : 4;', 'r = !(E);', 'r = -(E);',
       'r = (char)(E);', 'r = (E) + c;', 'r = 0 * (E);', 'r = (E) && c;', 'r = c || (E);', 'r = 1 || (E);', 'r = 0 && (E);', 'r = (E) == (E2);', 'switch (E) { case 0: tv(54); break; case 1: tv(55); default: ; }', 'r = 1 ? (E) : (E2);',
       'r = 0 ? (E2) : (E);', '~(E);', 'r = E; r = E2;', '{ int unused = E; }', '{ long v[2] = {E, E2}; r = v[1]; }', 'm@[(E) & 3] = 4;', 'r = m@[(E) & 3];', 'return ret@(E);', 'z@(); r = E; z@(); r = E;']
KPRE = ('int n@[8]; int m@[8]; int k@(int i, int v) { n@[i] = n@[i] + 1; return v; }\n'
        'void z@(void) { tv(n@[0]); tv(n@[1]); tv(n@[5]); tv(m@[0]); tv(m@[1]); tv(m@[2]); tv(m@[3]); }\nint ret@(long v) { tv(v != 0); z@(); return 6; }\n')


def part_kept(tier):
    """side effects of operands next to constants and in discarded or decided expressions, in every context"""
    def u(e, cx, e2='k@(5, b)'):
        return Unit(KPRE + 'int f@(int a, int b) { int c = 3; int x = a; int w[9] = {1, 2, 3}; int *p = w + 1; long r = 9; %s z@(); tv(x); tv(p - w); tv(r != 0); return 7; }' % (
            cx.replace('E2', e2).replace('E', e)), [(0, 1), (1, 0), (5, 2)], order=True, tag='kept')
    for ef in EFF:
        for cx in CTX:
            yield u(ef, cx)
            for un in ['-', '+', '!', '~', '(char)', '(long)', '(unsigned)', '(void)']:
                if un != '(void)' or cx in ('E;', '(void)(E);'):
                    yield u(un + ' ' + ef, cx)
        for op in BOPS:
            for pu in PURE:
                for e in ('%s %s %s' % (ef, op, pu), '%s %s %s' % (pu, op, ef)):
                    for cx in CTX if tier == 'thorough' or pu in ('0', '1', 'c') else CTX[:4]:
                        yield u(e, cx)
        for pu in PURE[:4] + ['c']:
            for pv in PURE[:4] + ['c']:
                for e in ('%s ? %s : %s' % (ef, pu, pv), '%s ? %s : %s' % (pu, ef, pv), '%s ? %s : %s' % (pu, pv, ef)):
                    for cx in CTX if tier == 'thorough' or pu == pv else CTX[:6]:
                        yield u('(%s)' % e, cx)
    # two levels
    for ef in EFF[:4] + EFF[5:6]:
        for o1 in BOPS:
            for o2 in BOPS:
                for pu in ('0', '1', 'c'):
                    for e in ('(%s %s %s) %s %s', '%s %s (%s %s %s)'):
                        for pos in range(3):
                            l = [pu, '1' if pu == 'c' else pu, 'c' if pu == '1' else pu]
                            l[pos] = ef
                            s = e % (l[0], o1, l[1], o2, l[2])
                            for cx in CTX[:4] if tier == 'thorough' else CTX[:2]:
                                yield u(s, cx)


def part_decisions(tier):
    """comparisons of every relation and type pair, at their boundary, decide which operands of && || ?: ! are evaluated"""
    pre = 'int k@(int i, int v) { tv(i); return v; }\n'
    for a in TYPES:
        for b in TYPES:
            cs = [(x, y) for x in SV[a] for y in sorted(set(TV[b]) | {v for v in (x, x + 1, x - 1) if TOBJ[b].lo <= v <= TOBJ[b].hi})]
            for op in CMP:
                for sh in ['R || k@(1, 0)', 'R && k@(1, 1)', 'R ? k@(1, 5) : k@(2, 6)', '!(R) && k@(1, 1)', '!(R) || k@(1, 0)', 'k@(3, 0) || R || k@(1, 0)', 'k@(3, 1) && R && k@(1, 1)', '(R || k@(1, 0)) && k@(2, 1)',
                           '(R && k@(1, 1)) || k@(2, 0)', '(R || k@(1, 0)) ? k@(2, 5) : k@(4, 6)', '(R) == k@(1, 1)', '(R) || (R) && k@(1, 1)']:
                    yield Unit(pre + 'int f@(%s a, %s b) { return %s; }' % (a, b, sh.replace('R', 'a %s b' % op)), cs, tag='decision')
                if a == b:
                    for k in (-1, 0, 1, 2, 127):
                        for r in ['a %s %d' % (op, k), '%d %s a' % (k, op)]:
                            for sh in ['R || k@(1, 0)', 'R && k@(1, 1)', 'R ? k@(1, 5) : k@(2, 6)', '!(R) || k@(1, 0)']:
                                yield Unit(pre + 'int f@(%s a) { return %s; }' % (a, sh.replace('R', r)), [(v,) for v in VALS[a]], tag='decision')


PARTS = [('compound-assignment-lhs', part_compound_once), ('short-circuit', part_short), ('exactly-once', part_once), ('lvalues', part_lvalue), ('sequencing', part_sequence), ('decisions', part_decisions), ('effects-kept', part_kept)]
