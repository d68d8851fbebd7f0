"""Pointers, arrays and strings: arithmetic scales by the pointee, every access path reaches the object C says, writes through
one path are seen through every other."""
from harness import *
from gen import *

# pointee kinds: (name, prelude, declaration of an array of n named %s, pointer declaration, lvalue suffix to a scalar, scalar type)
KINDS = [
    ('char', '', 'char %s[%d]', 'char *%s', '', 'char'),
    ('int', '', 'int %s[%d]', 'int *%s', '', 'int'),
    ('uint', '', 'unsigned int %s[%d]', 'unsigned int *%s', '', 'unsigned int'),
    ('long', '', 'long %s[%d]', 'long *%s', '', 'long'),
    ('ullong', '', 'unsigned long long %s[%d]', 'unsigned long long *%s', '', 'unsigned long long'),
    ('s1', 'struct P@ { char m; };\n', 'struct P@ %s[%d]', 'struct P@ *%s', '.m', 'char'),
    ('s3', 'struct P@ { char x[2]; char m; };\n', 'struct P@ %s[%d]', 'struct P@ *%s', '.m', 'char'),
    ('s8', 'struct P@ { int m; char y; };\n', 'struct P@ %s[%d]', 'struct P@ *%s', '.m', 'int'),
    ('s12', 'struct P@ { char x; int m; char y; };\n', 'struct P@ %s[%d]', 'struct P@ *%s', '.m', 'int'),
    ('s24', 'struct P@ { char x; long m; int y; };\n', 'struct P@ %s[%d]', 'struct P@ *%s', '.m', 'long'),
    ('s5', 'struct P@ { char m; char y[4]; };\n', 'struct P@ %s[%d]', 'struct P@ *%s', '.m', 'char'),
    ('sa', 'struct P@ { int m[5]; };\n', 'struct P@ %s[%d]', 'struct P@ *%s', '.m[4]', 'int'),
    ('arr3', '', 'int %s[%d][3]', 'int (*%s)[3]', '[1]', 'int'),
    ('carr5', '', 'char %s[%d][5]', 'char (*%s)[5]', '[4]', 'char'),
    ('arr23', '', 'long %s[%d][2][3]', 'long (*%s)[2][3]', '[1][2]', 'long'),
    ('enum', 'enum K@ { KA@, KB@ };\n', 'enum K@ %s[%d]', 'enum K@ *%s', '', 'int'),
    ('td', 'typedef long td@;\n', 'td@ %s[%d]', 'td@ *%s', '', 'long'),
]
N = 5


def setup(k, glob):
    """(file scope text, local text) that make array v with element j holding 10 + j, and pointer p"""
    name, pre, ad, pd, suf, st = k
    g = pre
    l = ''
    if glob:
        g += ad % ('v@', N) + ';\n'
        v = 'v@'
    else:
        l += ad % ('v', N) + '; '
        v = 'v'
    l += 'int j; for (j = 0; j < %d; j++) v%s[j]%s = 10 + j; ' % (N, '@' if glob else '', suf)
    return g, l, v


def part_arith(tier):
    """p + i, i + p, p - i, p[i], i[p], compound and increments, by index types and all positions"""
    for k in KINDS:
        name, pre, ad, pd, suf, st = k
        for glob in (0, 1):
            g, l, v = setup(k, glob)
            for it in TYPES:
                cs = [(b, i) for b in range(N) for i in range(-4, 5) if 0 <= b + i < N and (i >= 0 or 'unsigned' not in it)]
                if tier != 'thorough':
                    cs = [c for c in cs if c[1] in (-4, -3, -1, 0, 1, 2, 4)]
                for e in ['(*(p + i))%s', '(*(i + p))%s', 'p[i]%s', 'i[p]%s', '(*&p[i])%s', '(&p[i])[0]%s', '(p + i)[0]%s', '(p + i - 2)[2]%s', '(&p[i] + 1)[-1]%s']:
                    yield Unit(g + 'long f@(int b, %s i) { %s %s = %s + b; return %s; }' % (it, l, pd % 'p', v, e % suf), cs, tag=name + ' ' + e)
                    if e[0] == '(' and it == 'int':
                        yield Unit(g + 'long f@(int b, %s i) { %s %s = %s + b; %s = 77; long h = 0; for (j = 0; j < %d; j++) h = h * 31 + %s[j]%s; return h; }'
                                   % (it, l, pd % 'p', v, e % suf, N, v, suf), cs, tag=name + ' store ' + e)
                for s in ['p += i;', 'p = p + i;', 'p = &p[i];', 'p = i + p;']:
                    yield Unit(g + 'long f@(int b, %s i) { %s %s = %s + b; %s return (*p)%s; }' % (it, l, pd % 'p', v, s, suf), cs, tag=name + ' ' + s)
                ns = [(b, -i) for b, i in cs if -i >= 0 or 'unsigned' not in it]
                for s in ['p -= i;', 'p = p - i;', 'p = &*(p - i);']:
                    yield Unit(g + 'long f@(int b, %s i) { %s %s = %s + b; %s return (*p)%s; }' % (it, l, pd % 'p', v, s, suf), ns, tag=name + ' ' + s)
            for c in range(-4, 5):
                cs = [(b,) for b in range(N) if 0 <= b + c < N]
                for e in ['(*(p + (%d)))', 'p[%d]', '(*(p - (%d)))', '(p + (%d))[0]']:
                    d = -c if '-' in e else c
                    yield Unit(g + 'long f@(int b) { %s %s = %s + b; return %s%s; }' % (l, pd % 'p', v, e % d, suf), cs, tag=name + ' const')
            for e, r in [('*p++', 0), ('*++p', 1), ('*p--', 0), ('*--p', -1)]:
                cs = [(b,) for b in range(N) if 0 <= b + r < N and 0 <= b + (1 if '+' in e else -1) < N]
                if name.startswith('arr') or name.startswith('carr') or suf:
                    e = '(%s)' % e
                yield Unit(g + 'long f@(int b) { %s %s = %s + b; long r = %s%s; return r * 100 + (*p)%s; }' % (l, pd % 'p', v, e, suf, suf), cs, tag=name + ' ' + e)
                yield Unit(g + 'long f@(int b) { %s %s = %s + b; %s; (*p)%s = 77; long h = 0; for (j = 0; j < %d; j++) h = h * 31 + %s[j]%s; return h; }' % (l, pd % 'p', v, e.strip('(*)'), suf, N, v, suf), cs, tag=name + ' s' + e)
            for e in ['(*p)%s++', '++(*p)%s', '(*p)%s--', '--(*p)%s', '(*p)%s += 3', '(*p)%s = 50']:
                yield Unit(g + 'long f@(int b) { %s %s = %s + b; long r = %s; long h = r; for (j = 0; j < %d; j++) h = h * 31 + %s[j]%s; return h; }' % (l, pd % 'p', v, e % suf, N, v, suf),
                           [(b,) for b in range(N)], tag=name + ' ' + e)
    # signed and unsigned index extremes: the index is used with its own width and sign
    for it, cs in [('char', [(100, -100), (3, 100), (120, -120), (0, 127)]), ('int', [(100, -100), (0, 120)]), ('unsigned int', [(0, 120), (3, 100)]),
                   ('long', [(100, -100), (0, 120)]), ('unsigned long', [(0, 120)])]:
        for t in ('char', 'int', 'long'):
            yield Unit('%s v@[130]; long f@(int b, %s i) { int j; for (j = 0; j < 130; j++) v@[j] = j - 3; %s *p = v@ + b; return p[i] * 1000 + *(p + i); }' % (t, it, t), cs, tag='far')
            yield Unit('%s v@[130]; long f@(int b, %s i) { int j; for (j = 0; j < 130; j++) v@[j] = j - 3; v@[b + i] = 99; long s = 0; for (j = 0; j < 130; j++) s += v@[j] * j; return s; }' % (t, it), cs, tag='fars')


def part_diff(tier):
    """differences and comparisons of all pairs of element addresses (including one past the end)"""
    for k in KINDS:
        name, pre, ad, pd, suf, st = k
        cs = [(a, b) for a in range(N + 1) for b in range(N + 1)]
        for glob in (0, 1):
            g = pre + (ad % ('v@', N) + ';\n' if glob else '')
            l = '' if glob else ad % ('v', N) + '; '
            v = 'v@' if glob else 'v'
            D = dict(g=g, l=l, p=pd % 'p', q=pd % 'q', v=v)
            yield Unit('%(g)sint f@(int a, int b) { %(l)s%(p)s = %(v)s + a; %(q)s = %(v)s + b; return (int)(p - q); }' % D, cs, tag=name)
            yield Unit('%(g)slong f@(int a, int b) { %(l)s%(p)s = %(v)s + a; %(q)s = %(v)s + b; return p - q; }' % D, cs, tag=name)
            yield Unit('%(g)slong f@(int a, int b) { %(l)sreturn (long)(&%(v)s[a] - &%(v)s[b]); }' % D, cs, tag=name)
            yield Unit('%(g)slong f@(int a, int b) { %(l)sreturn (&%(v)s[a] - %(v)s) * 10 + (int)(%(v)s + b - %(v)s); }' % D, cs, tag=name)
            for op in CMP:
                D['o'] = op
                yield Unit('%(g)sint f@(int a, int b) { %(l)s%(p)s = %(v)s + a; %(q)s = %(v)s + b; return p %(o)s q; }' % D, cs, tag=name + op)
                yield Unit('%(g)sint f@(int a, int b) { %(l)sif (&%(v)s[a] %(o)s %(v)s + b) return 5; return 6; }' % D, cs, tag=name + op)
    # a pointer is true
    for d in ['int x; int *p = &x;', 'char x[2]; char *p = x;', 'char *p = "a";', 'int (*p)(int) = g@;']:
        for e in ['!p', 'p && 1', 'p || 0', 'p ? 3 : 4', '!!p', '!p || p', '1 && p', '0 || p']:
            yield Unit('int g@(int a) { return a; }\nint f@(void) { %s return %s; }' % (d, e), tag='bool')
        yield Unit('int g@(int a) { return a; }\nint f@(void) { %s if (p) return 1; return 2; }' % d, tag='bool')
        yield Unit('int g@(int a) { return a; }\nint f@(void) { %s int n = 0; while (p) { n++; if (n > 3) break; } return n; }' % d, tag='bool')


# ---- access paths
def types_of(depth):
    """all type constructor strings over a: array[2], p: pointer, s: struct with the member in the middle, ending in a scalar"""
    if depth == 0:
        return ['']
    return [c + t for t in types_of(depth - 1) for c in 'aps']


class Path:
    """declares an object of the given constructor string with every pointer pointing to a named object"""

    def __init__(self, cons, scalar, local):
        self.cons, self.scalar, self.local = cons, scalar, local
        self.pre = ''
        self.decls = []     # objects, innermost first
        self.init = []
        self.n = 0

    def typename(self, cons):
        """(base, declarator function) for a type"""
        if cons == '':
            return self.scalar, lambda d: d
        if cons[0] == 'a':
            b, f = self.typename(cons[1:])
            return b, lambda d: f((d if d[0] != '*' else '(%s)' % d) + '[2]')
        if cons[0] == 'p':
            b, f = self.typename(cons[1:])
            return b, lambda d: f('*' + d)
        tag = 'T@%s' % cons
        if tag not in self.tags:
            b, f = self.typename(cons[1:])
            self.pre += 'struct %s { char pad; %s %s; char end; };\n' % (tag, b, f('m'))
            self.tags.add(tag)
        return 'struct ' + tag, lambda d: d

    def build(self):
        self.tags = set()
        self.obj('o', self.cons)
        return self

    def obj(self, name, cons):
        """make object `name`; fill its pointers"""
        b, f = self.typename(cons)
        nm = name + ('' if self.local else '@')
        self.decls.append('%s %s;' % (b, f(nm)))
        self.fill(nm, cons)

    def fill(self, lv, cons):
        if cons == '':
            self.n += 1
            self.init.append('%s = %d;' % (lv, self.n + 10))
        elif cons[0] == 'a':
            self.fill(lv + '[0]', cons[1:])
            self.fill(lv + '[1]', cons[1:])
        elif cons[0] == 's':
            self.fill(lv + '.m', cons[1:])
        else:
            self.n += 1
            t = 't%d' % self.n
            b, f = self.typename(cons[1:])
            nm = t + ('' if self.local else '@')
            self.decls.append('%s %s;' % (b, f(nm)))
            self.fill(nm, cons[1:])
            self.init.append('%s = &%s;' % (lv, nm))


def access(lv, cons):
    """all spellings of the scalars reachable: yields lvalue expressions"""
    if cons == '':
        yield lv
        return
    if cons[0] == 'a':
        for x in ('%s[1]', '(*(%s + 1))', '%s[i]', '(*%s)'):
            yield from access(x % lv, cons[1:])
    elif cons[0] == 'p':
        if cons[1:2] == 's':
            yield from access('%s->m' % lv, cons[2:])
            yield from access('(*%s).m' % lv, cons[2:])
        else:
            for x in ('(*%s)', '%s[0]'):
                yield from access(x % lv, cons[1:])
    else:
        for x in ('%s.m', '(&%s)->m'):
            yield from access(x % lv, cons[1:])


def part_paths(tier):
    """every type built from arrays, pointers and structs to depth 3 (4), every spelling of every access, read and written"""
    D = 4 if tier == 'thorough' else 3
    for d in range(1, D + 1):
        for cons in types_of(d):
            for scalar in (['char', 'int', 'long'] if d < 4 else ['int']):
                for local in (0, 1):
                    p = Path(cons, scalar, local).build()
                    o = 'o' if local else 'o@'
                    g = p.pre + ('' if local else '\n'.join(p.decls) + '\n')
                    l = (' '.join(p.decls) if local else '') + ' ' + ' '.join(p.init)
                    for lv in access(o, cons):
                        ds = ['%s %s%s %s return %s;' % ('int i = 1;', l, '', '', lv)]
                        ds.append('int i = 1; %s %s = 7; %s += 3; return %s;' % (l, lv, lv, lv))
                        ds.append('int i = 1; %s %s *q = &%s; *q = 9; return %s + *q;' % (l, scalar, lv, lv))
                        if scalar != 'long' or local == 0:
                            ds.append('int i = 1; %s int r = %s++; return r * 100 + %s;' % (l, lv, lv))
                        for b in ds:
                            yield Unit(g + 'long f@(void) { %s }' % b, tag='%s %s' % (cons, lv))


def part_pass(tier):
    """arrays and pointers through calls: parameters declared as arrays or pointers, results, aliasing"""
    for t in ['char', 'int', 'long', 'unsigned int']:
        for par in ['%s *p', '%s p[3]', '%s p[5]', '%s (p)[3]', '%s (*p)']:
            P = par % t
            for arg, off in [('v', 0), ('v + 1', 1), ('&v[0]', 0), ('&v[2]', 2), ('w@', 0), ('&w@[1]', 1), ('(v)', 0), ('*&v', 0)]:
                yield Unit('%s w@[5];\nlong g@(%s) { p[1] = p[1] + 5; *p = p[2]; return p[0] * 100 + p[1]; }\n'
                           'long f@(void) { %s v[5]; int i; long h = 0; for (i = 0; i < 5; i++) { v[i] = 3 * i + 1; w@[i] = 4 * i + 2; } long r = g@(%s); '
                           'for (i = 0; i < 5; i++) h = h * 31 + v[i] + w@[i] * 7; return h * 10000 + r; }' % (t, P, t, arg), tag='pass')
            yield Unit('int g@(%s) { return sizeof p; }\nint f@(void) { %s v[5]; return g@(v); }' % (P, t), tag='psize')
            yield Unit('long g@(%s) { long s = 0; while (*p) { s = s * 3 + *p; p++; } return s; }\nlong f@(void) { %s v[5]; v[0] = 2; v[1] = 3; v[2] = 1; v[3] = 0; return g@(v) * 1000 + g@(v + 1); }' % (P, t), tag='walk')
        for par in ['%s (*p)[3]', '%s p[2][3]', '%s p[4][3]']:
            P = par % t
            yield Unit('long g@(%s, int i, int j) { p[i][j] = p[i][j] + 50; return p[i][j]; }\n'
                       'long f@(int i, int j) { %s v[2][3]; int a; int b; for (a = 0; a < 2; a++) for (b = 0; b < 3; b++) v[a][b] = a * 3 + b; long r = g@(v, i, j); long h = r;'
                       ' for (a = 0; a < 2; a++) for (b = 0; b < 3; b++) h = h * 31 + v[a][b]; return h; }' % (P, t), [(i, j) for i in range(2) for j in range(3)], tag='pass2')
        yield Unit('void sw@(%s *a, %s *b) { %s t = *a; *a = *b; *b = t; }\nlong f@(int i, int j) { %s v[3]; v[0] = 1; v[1] = 2; v[2] = 3; sw@(&v[i], &v[j]); return v[0] * 100 + v[1] * 10 + v[2]; }' % (t, t, t, t),
                   [(i, j) for i in range(3) for j in range(3)], tag='swap')
        yield Unit('%s w@[3];\n%s *g@(int i) { return &w@[i]; }\nlong f@(int i, int j) { *g@(i) = 5; g@(j)[0] = 7; *g@(0) += 1; return w@[0] * 100 + w@[1] * 10 + w@[2] + *g@(i); }' % (t, t),
                   [(i, j) for i in range(3) for j in range(3)], tag='ret')
        yield Unit('%s *mx@(%s *a, int n) { %s *m = a; int i; for (i = 1; i < n; i++) if (a[i] > *m) m = a + i; return m; }\n'
                   'long f@(int x, int y, int z) { %s v[3]; v[0] = x; v[1] = y; v[2] = z; %s *m = mx@(v, 3); *m = 99; return (m - v) * 1000000 + v[0] * 10000 + v[1] * 100 + v[2]; }' % (t, t, t, t, t),
                   list(itertools.product(range(3), repeat=3)), tag='max')
        # alias
        for a, b in itertools.product(['x', '*p', '**q', 'v[1]', '*(v + 1)', 's.m', 'r->m', 'w@', 'p[0]', '(*r).m'], repeat=2):
            yield Unit('%(t)s w@; struct A@ { char c; %(t)s m; };\nlong f@(void) { %(t)s x = 1; %(t)s *p = &x; %(t)s **q = &p; %(t)s v[3]; v[0] = 4; v[1] = 5; v[2] = 6; struct A@ s; struct A@ *r = &s; s.m = 8; w@ = 9; '
                       '%(a)s = 20; %(b)s = %(a)s + 3; %(a)s = %(a)s + %(b)s; return x + *p * 3 + **q * 5 + v[0] + v[1] * 7 + v[2] + s.m * 11 + r->m * 13 + w@ * 17; }' % dict(t=t, a=a, b=b), tag='alias')


def part_multi(tier):
    """pointers to pointers, arrays of pointers, pointers reseated through pointers"""
    for t in ['char', 'int', 'long']:
        for depth in range(1, 7):
            st = '*' * depth
            d = ' '.join('%s %sp%d = &p%d;' % (t, '*' * k, k, k - 1) for k in range(1, depth + 1))
            yield Unit('long f@(void) { %s p0 = 5; %s %sp%d = 8; return p0 * 10 + %sp%d; }' % (t, d, st, depth, st, depth), tag='deep')
            yield Unit('long f@(void) { %s p0 = 5; %s y = 6; %s %sp%d = &y; *p1 = 9; return p0 * 10 + y; }' % (t, t, d, '*' * (depth - 1), depth), tag='reseat')
            yield Unit('long f@(void) { %s p0 = 5; %s return %sp%d%s; }' % (t, d, '', depth, '[0]' * depth), tag='deep0')
            yield Unit('void g@(%s %sp) { %sp = %sp + 4; }\nlong f@(void) { %s p0 = 5; %s g@(p%d); return p0; }' % (t, st, st, st, t, d, depth), tag='deepc')
        yield Unit('long f@(int i, int j) { %(t)s a = 1; %(t)s b = 2; %(t)s c = 3; %(t)s *v[3]; v[0] = &a; v[1] = &b; v[2] = &c; %(t)s **q = v; *v[i] = 7; *q[j] = *q[j] + 4; **(q + 1) += 10; q++; *q = v[i]; **q += 20; return a * 10000 + b * 100 + c; }' % dict(t=t),
                   [(i, j) for i in range(3) for j in range(3)], tag='arrp')
        yield Unit('%(t)s x@; %(t)s y@;\nvoid g@(%(t)s **p, int c) { if (c) *p = &x@; else *p = &y@; }\nlong f@(int c, int d) { %(t)s *q; x@ = 3; y@ = 4; g@(&q, c); *q = *q * 2; g@(&q, d); return *q * 100 + x@ * 10 + y@; }' % dict(t=t),
                   [(0, 0), (0, 1), (1, 0), (1, 1)], tag='outp')
    # linked structures: all link patterns of 3 nodes
    for a, b, c in itertools.product(range(3), repeat=3):
        yield Unit('struct N@ { int v; struct N@ *n; };\nint f@(int s) { struct N@ k[3]; int i; for (i = 0; i < 3; i++) k[i].v = i + 1; k[0].n = &k[%d]; k[1].n = &k[%d]; k[2].n = k + %d; struct N@ *p = &k[s]; '
                   'p->n->v = p->n->v + 10; p->n->n->v += 100; (*(*p).n).n->n = p; int h = 0; for (i = 0; i < 6; i++) { h = h * 3 + p->v; p = p->n; } return h; }' % (a, b, c), [(0,), (1,), (2,)], tag='link')
    for d in range(1, 12):
        yield Unit('struct N@ { char c; int v; struct N@ *n; };\nint f@(int a) { struct N@ x; struct N@ y; x.n = &y; y.n = &x; x.v = a; y.v = a + 1; return x%s.v * 10 + (&x)%s->v; }' % ('.n' + '->n' * (d - 1) + '[0]' if d > 0 else '', '->n' * d), [(3,), (7,)], tag='chain')
    # pointer casts: bytes of wider objects, pointers through integers and void pointers
    for t in ['int', 'long', 'unsigned int', 'long long']:
        for i in range(TOBJ[t].size):
            yield Unit('int f@(%s a) { return ((char*)&a)[%d]; }' % (t, i), [(v,) for v in VALS[t]], tag='bytes')
            yield Unit('%s f@(%s a) { char *p = (char*)&a; p[%d] = 90; *(p + %d) += 1; return a; }' % (t, t, i, i), [(v,) for v in VALS[t]], tag='bytes')
        yield Unit('%s f@(%s a) { %s b = 0; char *p = (char*)&a; char *q = (char*)&b; int i; for (i = 0; i < %d; i++) *q++ = *p++; return b; }' % (t, t, t, TOBJ[t].size), [(v,) for v in VALS[t]], tag='copy')
        yield Unit('%s f@(%s a) { void *p = &a; %s *q = p; *q = *q - 1; long n = (long)p; return *(%s*)n; }' % (t, t, t, t), [(v,) for v in VALS[t][1:]], tag='void')
        yield Unit('%s g@(void *p) { return *(%s*)p; }\n%s f@(%s a) { return g@(&a); }' % (t, t, t, t), [(v,) for v in VALS[t]], tag='void')
        yield Unit('int f@(%s a) { %s v[3]; v[0] = 1; v[1] = a; v[2] = 3; return *((char*)v + %d) + *(char*)(v + 2); }' % (t, t, TOBJ[t].size), [(v,) for v in VALS[t]], tag='castadd')
    for e in ['*(c ? p : q)', '(c ? p : q)[1]', '*(c ? v : w)', '(c ? v : w)[1]', '*(c ? p + 1 : q)', '(c ? &x : &y)->m', '(*(c ? &x : &y)).m', '*(c ? p : v)', '*((c ? p : q) + 1)']:
        yield Unit('struct C@ { char d; int m; };\nint f@(int c) { int v[2]; int w[2]; int *p = v; int *q = w; struct C@ x; struct C@ y; x.m = 5; y.m = 6; v[0] = 1; v[1] = 2; w[0] = 3; w[1] = 4; return %s; }' % e, [(0,), (1,)], tag='cond')


def part_late(tier):
    """structs completed after the pointer's type was written: strides, sizes and members are those of the definition"""
    for body, m in [('int c; int d;', 'd'), ('char c; long d;', 'd'), ('char c[3]; char d;', 'd'), ('long c; int d; char e;', 'd')]:
        fill = 'int j; for (j = 0; j < 4; j++) v@[j].d = 10 + j; '
        V = 'struct L@ v@[4];\n'
        for pre, setp, p in [
                ('struct L@ *g@;\nstruct L@ { %s };\n' % body, 'g@ = v@ + b;', 'g@'),
                ('typedef struct L@ *lp@;\nstruct L@ { %s };\n' % body, 'lp@ p = v@ + b;', 'p'),
                ('struct L@ { %s struct L@ *n; };\n' % body, 'struct L@ *p = v@; p->n = v@ + b;', 'p->n'),
                ('struct L@ { %s struct L@ *n; };\n' % body, 'struct L@ q; q.n = v@ + b;', 'q.n'),
                ('struct L@ { %s struct L@ **n; };\n' % body, 'struct L@ q; struct L@ *t = v@ + b; q.n = &t;', '(*q.n)'),
                ('struct L@ { %s struct L@ *n[2]; };\n' % body, 'struct L@ q; q.n[1] = v@ + b;', 'q.n[1]'),
                ('struct O@ { char z; struct L@ *n; };\nstruct L@ { %s };\n' % body, 'struct O@ q; q.n = v@ + b;', 'q.n'),
                ('struct L@ *h@(struct L@ *x);\nstruct L@ { %s };\nstruct L@ *k@;\n' % body, 'k@ = v@ + b;', 'k@')]:
            for e in ['%s->d', '(*%s).d', '%s[0].d', '%s[1].d', '(%s + 1)->d', '(1 + %s)->d', '(%s - 1)->d', '%s[-1].d', '(&%s[1])->d', '(*(%s + 1)).d', 'sizeof *%s', 'sizeof %s[0]', '(int)(%s - v@)', '(int)(&%s[1] - v@)', '%s > v@', '%s == v@ + 1']:
                yield Unit(pre + V + 'long f@(int b) { %s %s return %s; }' % (fill, setp, e % p), [(0,), (1,), (2,)], tag='late ' + e)
            for s in ['%s++;', '++%s;', '%s--;', '--%s;', '%s += 1;', '%s -= 1;', '%s = %s + 1;', '%s = %s - 1;', '%s = &%s[1];']:
                yield Unit(pre + V + 'long f@(int b) { %s %s %s %s->d = 50; long h = 0; for (j = 0; j < 4; j++) h = h * 31 + v@[j].d; return h; }' % (fill, setp, s.replace('%s', p), p), [(1,), (2,)], tag='late ' + s)
        for s in ['typedef struct L@ *lp@;\nstruct L@ { %s };\n' % body]:
            yield Unit(s + V + 'long f@(int b) { %s return ((lp@)v@ + b)->d + ((lp@)v@)[1].d + sizeof(*(lp@)v@); }' % fill, [(0,), (1,), (2,)], tag='late cast')


def part_string(tier):
    """string literals: bytes, distinct, usable as arrays and pointers everywhere"""
    fn = ('int len@(char *s) { int n = 0; while (s[n]) n++; return n; }\n'
          'int cmp@(char *a, char *b) { while (*a && *a == *b) { a++; b++; } return *a - *b; }\n'
          'void cpy@(char *d, char *s) { while (*d++ = *s++); }\n'
          'char *chr@(char *s, int c) { while (*s != c) s++; return s; }\n')
    ss = ['', 'a', 'ab', 'abc', 'abcdefg', 'abcdefgh', 'abcdefghi', '\\n', '\\0x', 'a\\0b', '\\377', 'x' * 31, 'x' * 32, 'x' * 33]
    for s in ss:
        yield Unit(fn + 'int f@(void) { return len@("%s"); }' % s, tag='len')
        yield Unit(fn + 'int f@(void) { char b[40]; cpy@(b, "%s"); return len@(b) * 100 + cmp@(b, "%s"); }' % (s, s), tag='cpy')
        yield Unit('int f@(void) { return sizeof "%s"; }' % s, tag='size')
        yield Unit('int f@(void) { return sizeof("%s") + *"%s" + "%s"[0]; }' % (s, s, s), tag='direct')
        yield Unit('void f@(void) { char *p = "%s"; tv(*p); tv(p[0]); while (*p) tv(*p++); }' % s, tag='walk')
        yield Unit('int f@(void) { char *p; char *q; p = "%s"; q = "%s1"; return *p + q[0]; }' % (s, s), tag='two')
        for t in ss:
            yield Unit(fn + 'int f@(void) { return cmp@("%s", "%s"); }' % (s, t), tag='cmp')
            yield Unit(fn + 'int f@(int c) { char *p = c ? "%s" : "%s"; return len@(p) * 100 + *p; }' % (s, t), [(0,), (1,)], tag='cond')
    yield Unit(fn + 'int f@(int c) { char *s = "hello"; return (int)(chr@(s, c) - s); }', [(ord(c),) for c in 'helo'], tag='chr')
    yield Unit(fn + 'int f@(int i) { char *v[3] = {"one", "two", "three"}; return len@(v[i]) * 1000 + v[i][1] + *v[i]; }', [(0,), (1,), (2,)], tag='vec')
    yield Unit(fn + 'int f@(int i, int j) { return "abcdef"[i] * 1000 + j["ghijkl"] + *("mnopqr" + i); }', [(i, j) for i in range(6) for j in range(6)], tag='sub')
    # the same literal written twice / in two functions, writes into arrays made from literals do not change the literal
    yield Unit(fn + 'int f@(void) { char a[4] = "abc"; char b[4] = "abc"; a[0] = \'z\'; return b[0] * 1000 + "abc"[0] + a[0]; }', tag='fresh')
    yield Unit(fn + 'int g@(void) { char a[4] = "abc"; int r = a[1]; a[1] = \'z\'; return r; }\nint f@(void) { return g@() * 1000 + g@(); }', tag='fresh')
    yield Unit(fn + 'int g@(int n) { char a[4] = "abc"; int r = a[1]; a[1] = a[1] + n; if (n) return g@(n - 1) * 3 + a[1] + r; return r + a[1]; }\nint f@(void) { return g@(3); }', tag='fresh')
    for n in [1, 2, 3, 10, 50, 200]:
        yield Unit(fn + 'int f@(int k) { char *p = "x"; int i = k; %s return len@(p) * 1000 + p[i %% 2]; }' % ' '.join('if (k == %d) p = "s%d";' % (i, i) for i in range(n)),
                   [(i,) for i in range(0, n + 1, max(1, n // 7))], tag='many')
        yield Unit('int f@(int k) { switch (k) { %s } return 0; }' % ' '.join('case %d: return "%s"[%d];' % (i, chr(97 + i % 26) * (i % 5 + 1), i % 5) for i in range(n)), [(i,) for i in range(n)], tag='manysw')


def part_matrix(tier):
    """multi-dimensional arrays: every index combination reaches its own element"""
    for t in ['char', 'int', 'long']:
        for dims in [(2,), (5,), (2, 3), (3, 2), (2, 2, 2), (1, 4), (4, 1), (2, 3, 2), (2, 1, 2, 2), (3, 3, 3)]:
            ds = ''.join('[%d]' % d for d in dims)
            ix = list(itertools.product(*[range(d) for d in dims]))
            n = len(dims)
            par = ', '.join('int i%d' % k for k in range(n))
            sub = ''.join('[i%d]' % k for k in range(n))
            ptr = 'v'
            for k in range(n):
                ptr = '*(%s + i%d)' % (ptr, k)
            fl = 'i0'
            for k in range(1, n):
                fl = '(%s * %d + i%d)' % (fl, dims[k], k)
            tot = len(ix)
            z0 = 'v' + '[0]' * (n - 1)
            base = '%s *p = &%s[0]; int j; for (j = 0; j < %d; j++) p[j] = j + 1;' % (t, z0, tot)
            # p[j] beyond a row is out of bounds in C: fill by subscripts
            fill = ' '.join('v%s = %d;' % (''.join('[%d]' % q for q in i), k + 1) for k, i in enumerate(ix))
            h = 'long h = 0; ' + ' '.join('h = h * 31 + v%s;' % ''.join('[%d]' % q for q in i) for i in ix)
            for glob in (0, 1):
                g = '%s v@%s;\n' % (t, ds) if glob else ''
                d = '' if glob else '%s v%s;' % (t, ds)
                V = (lambda s: s.replace('v', 'v@')) if glob else (lambda s: s)
                for e in (sub, None):
                    x = V('v' + sub) if e else V(ptr)
                    yield Unit(g + 'long f@(%s) { %s %s return %s; }' % (par, d, V(fill), x), ix, tag='mread')
                    yield Unit(g + 'long f@(%s) { %s %s %s = 90; %s return h; }' % (par, d, V(fill), x, V(h)), ix, tag='mwrite')
                yield Unit(g + 'long f@(%s) { %s %s %s; %s return h; }' % (par, d, V(fill), V('v' + sub + '++'), V(h)), ix, tag='minc')
            if n > 1:
                row = '%s (*r)%s' % (t, ''.join('[%d]' % d for d in dims[1:]))
                yield Unit('long f@(%s) { %s v%s; %s %s = v; r += i0; return (*r)%s; }' % (par, t, ds, fill, row, ''.join('[i%d]' % k for k in range(1, n))), ix, tag='mrow')
                yield Unit('long f@(%s) { %s v%s; %s %s = v + i0; return r[0]%s; }' % (par, t, ds, fill, row, ''.join('[i%d]' % k for k in range(1, n))), ix, tag='mrow')
                yield Unit('long f@(void) { %s v%s; return sizeof v[0] * 100 + sizeof v + sizeof *v; }' % (t, ds), tag='msize')


def part_params(tier):
    """arrays and pointers to arrays as parameters: up to four dimensions, first bound given or not the argument's, passed on, stepped and measured"""
    for t in ['char', 'int', 'long', 'unsigned int', 'struct P@', 'char *']:
        for dims in [(3,), (2, 3), (3, 2), (1, 3), (2, 1), (2, 3, 4), (1, 2, 3), (4, 3, 2), (2, 2, 2), (2, 3, 1), (2, 2, 3, 2), (2, 1, 2, 3), (1, 1, 1, 2)]:
            if t in ('struct P@', 'char *') and len(dims) > 3:
                continue
            n = len(dims)
            pre = 'struct P@ { char z; int m; };\n' if t[0] == 's' else ''
            leaf = {'struct P@': '.m', 'char *': '[0]'}.get(t, '')
            ix = list(itertools.product(*[range(d) for d in dims]))
            at = lambda i: ''.join('[%d]' % q for q in i)
            ds = at(dims)
            fill = ' '.join('v%s%s = %d;' % (at(i), '' if t == 'char *' else leaf, k + 1) for k, i in enumerate(ix)) if t != 'char *' else \
                'char *z = "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz"; ' + ' '.join('v%s = z + %d;' % (at(i), k) for k, i in enumerate(ix))
            rest = at(dims[1:])
            pars = [('%s p%s' % (t, ds), 'exact'), ('%s p[%d]%s' % (t, dims[0] + 3, rest), 'wider'), ('%s p[1]%s' % (t, rest), 'one'), ('%s (*p)%s' % (t, rest) if rest else '%s *p' % t, 'pointer')]
            reads = ' '.join('tv((int)p%s%s);' % (at(i), leaf) for i in ix)
            sizes = ' '.join('tv(sizeof p%s);' % ('[0]' * k) for k in range(n + 1)) + ' tv(sizeof *p);'
            last = '[0]' * (n - 1)
            for par, tag in pars:
                g = pre + 'int g@(%s, int k) { %s %s p++; tv(sizeof p[-1]); tv((int)p%s%s); p--; return k; }\n' % (par, reads, sizes, '[-1]' + last, leaf)
                yield Unit(g + 'int f@(void) { %s v%s; %s return g@(v, 7); }' % (t, ds, fill), tag='param-' + tag)
                yield Unit(g + '%s v@%s;\nint f@(void) { %s return g@(v@, 7); }' % (t, ds, fill.replace('v[', 'v@[')), tag='param-' + tag)
                yield Unit(g + 'int h@(char c, %s) { return g@(p, c); }\nint f@(void) { %s v%s; %s return h@(4, v); }' % (par, t, ds, fill), tag='param-twice')
                if n > 1:
                    yield Unit(g + 'int f@(void) { %s v[2]%s; %s return g@(v[1], 7); }' % (t, ds, fill.replace('v[', 'v[1][')), tag='param-row')
                    st = 'struct H@ { char c; %s v%s; };\n' % (t, ds)
                    yield Unit(g + st + 'int f@(void) { struct H@ x; struct H@ *q = &x; %s return g@(q->v, 7) + g@(x.v, 5); }' % fill.replace('v[', 'x.v['), tag='param-member')
                sub = ''.join('[i%d]' % k for k in range(n))
                args = ', '.join('int i%d' % k for k in range(n))
                if t not in ('char *',):
                    w = pre + 'int g@(%s, %s) { p%s%s = 90; return sizeof p%s; }\n' % (args, par, sub, leaf, sub)
                    yield Unit(w + 'int f@(%s) { %s v%s; %s int r = g@(%s, v); %s return r; }' % (args, t, ds, fill, ', '.join('i%d' % k for k in range(n)), reads.replace('p[', 'v[')), ix, tag='param-write')


def part_known(tier):
    """pointer difference used in a signed comparison; offsets beyond 32 bits (integer arithmetic on addresses only)"""
    yield Unit('int f@(int a) { int v[4]; int *p = v; int *q = v + 2; return (q - p) < a; }', [(-1,)], tag='diff-signed', finding='diff-signed:(q-p)<a')
    yield Unit('int f@(void) { int v[4]; int *p = v + 2; int *q = v; return q - p < 0; }', [()], tag='diff-signed', finding='diff-signed:q-p<0')
    yield Unit('int f@(void) { int v[4]; int *p = v + 2; int *q = v; return (q - p) / 2 == -1; }', [()], tag='diff-signed', finding='diff-signed:(q-p)/2')


def part_sizes(tier):
    """arithmetic, differences, comparisons and steps of pointers to objects of every size"""
    top = 140 if tier != 'thorough' else 600
    for n in list(range(1, top)) + [255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097]:
        for el, g in [('struct S@', 'struct S@ { char c[%d]; };\n' % n), ('struct S@', 'struct S@ { int i; char c[%d]; };\n' % n), ('char', ''), ('int', ''), ('long', '')]:
            arr = '' if el[0] == 's' else '[%d]' % n
            decl = '%s v@[7]%s;\n' % (el, arr)
            ptr = '%s *%s' % (el, '%s') if not arr else '%s (*%s)%s' % (el, '%s', arr)
            off = lambda e: 'tv((char *)(%s) - (char *)v@);' % e
            body = '%s = v@ + 3; %s; ' % (ptr % 'p', ptr % 'q')
            body += ' '.join(off(e) for e in ['p + i', 'p - i', 'i + p', 'p + 2', 'p - 3', '&p[i]', '&p[-2]', 'p + l', 'p - l', 'p - -1', 'p + (i - 3)'])
            body += ' q = p; q++; %s q = p; ++q; %s q = p; q--; %s q = p; --q; %s q = p; q += i; %s q = p; q -= i; %s q = p++; %s %s q = --p; %s %s' % tuple(off('qqqqqqqpqp'[k]) for k in range(10))
            body += ' q = v@ + 5; tvl(q - p); tvl(&v@[6] - &v@[i]); tv(q > p); tv(q < p); tv(q >= p); tv(p == q - 2); tv(v@ + 6 - q); tv(sizeof v@ / sizeof v@[0]);'
            yield Unit(g + decl + 'int f@(int i, long l) { %s return 7; }' % body, [(0, 0), (1, 2), (2, 3), (3, 1)], tag='size')


PARTS = [('arith', part_arith), ('diff', part_diff), ('paths', part_paths), ('pass', part_pass), ('multi', part_multi), ('late', part_late), ('string', part_string),
         ('matrix', part_matrix), ('params', part_params), ('sizes', part_sizes), ('known', part_known)]
