"""Scopes and name spaces: every use of a name denotes the declaration that C's scope rules select."""
from harness import *
from gen import *

DEPTH = 3


def sequences(n, events):
    """all event sequences of length n with balanced blocks; yields lists"""
    def rec(k, depth, acc):
        if k == 0:
            if depth == 0:
                yield list(acc)
            return
        if depth > k:
            return
        for e in events:
            if e == '{':
                if depth >= DEPTH:
                    continue
                acc.append(e)
                yield from rec(k - 1, depth + 1, acc)
                acc.pop()
            elif e == '}':
                if depth == 0 or acc[-1] == '{':
                    continue
                acc.append(e)
                yield from rec(k - 1, depth - 1, acc)
                acc.pop()
            else:
                acc.append(e)
                yield from rec(k - 1, depth, acc)
                acc.pop()
    return rec(n, 0, [])


def text(seq, decl, use, extra):
    out = []
    k = 0
    for e in seq:
        k += 1
        if e == 'd':
            out.append(decl(k))
        elif e == 'u':
            out.append(use)
        elif e == 'w':
            out.append(extra(k))
        else:
            out.append(e)
    return ' '.join(out)


def valid(seq, outer):
    """no duplicate declaration in a block, no use before any declaration"""
    st = [outer]
    for e in seq:
        if e == '{':
            st.append(False)
        elif e == '}':
            st.pop()
        elif e == 'd':
            if st[-1] and not (len(st) == 1 and outer):
                return False
            if len(st) == 1 and outer and seq.index('d') != seq.index(e):
                return False
            st[-1] = True
        elif not any(st):
            return False
    return True


T = ['int', 'char', 'long', 'unsigned int']


def part_blocks(tier):
    """all sequences of declaration / use / write / block open / block close, for a local, parameter and global x"""
    L = 9 if tier == 'thorough' else 8
    for n in range(1, L + 1):
        for seq in sequences(n, 'duw{}'):
            if 'u' not in seq:
                continue
            body = text(seq, lambda k: '%s x = %d;' % (T[k % 4], 10 + k), 'tv(x);', lambda k: 'x = x + %d;' % (20 + k))
            # model decides which of the three are well-formed
            yield from wf('int f@(void) { %s return 0; }', body)
            if n < 7 or tier == 'thorough':
                yield from wf('int f@(int x) { { %s } tv(x); return 0; }', body, [(5,)])
                yield from wf('int x@ = 3;\nint g@(void) { return x@; }\nint f@(void) { %s tv(g@()); return 0; }', body.replace('x', 'x@'))


def wf(tmpl, body, cases=((),)):
    src = tmpl % body
    if refc.verdict('void tv(int);\n' + src.replace('@', '7'))[0] == 'accept':
        yield Unit(src, cases, tag='blocks')


def part_vblocks(tier):
    """the same sequences, well-formed or not: undeclared uses and redeclarations are diagnosed"""
    L = 8 if tier == 'thorough' else 7
    kinds = [
        ('var', lambda k: '%s x = %d;' % (T[k % 4], k), 'x;', lambda k: 'x = %d;' % k),
        ('tag', lambda k: 'struct x { %s m%d; };' % (T[k % 4], k), 'sizeof(struct x);', lambda k: '{ struct x y; }'),
        ('enumc', lambda k: 'enum { x = %d };' % k, 'x;', lambda k: 'x + %d;' % k),
        ('mixed', lambda k: ['int x;', 'enum { x };', 'char *x;', 'long x[2];'][k % 4], 'x;', lambda k: 'sizeof x;'),
    ]
    for n in range(1, L + 1):
        for seq in sequences(n, 'duw{}'):
            for nm, d, u, w in kinds:
                b = text(seq, d, u, w)
                yield 'int f(void) { %s return 0; }' % b, nm
                if nm == 'var':
                    yield 'int f(int x) { { %s } return x; }' % b, nm
                if n <= 4:
                    yield 'int x; int f(void) { %s return x; }' % b, nm + 'g'
                    yield 'int x(void); int f(void) { %s return x(); }' % b, nm + 'f'
                    yield 'int f(int x) { %s return x; }' % b, nm + 'p'


def part_two(tier):
    """two names interleaved: a declaration of one never disturbs the other"""
    L = 6 if tier == 'thorough' else 5
    for n in range(2, L + 1):
        for seq in sequences(n, 'dDuU{}'):
            if 'u' not in seq and 'U' not in seq:
                continue
            out = []
            for k, e in enumerate(seq):
                out.append({'d': 'int x = y + %d;' % (k + 1), 'D': 'long y = x * %d;' % (k + 2), 'u': 'tv(x); x = x + 1;', 'U': 'tv((int)y); y = y + x;'}.get(e, e))
            yield from wf('int f@(int x, int y) { { %s } tv(x); tv(y); return 0; }', ' '.join(out), [(3, 4)])


def part_spaces(tier):
    """one spelling in several name spaces at once: all assignments of the same name to variable, tag, member, function,
    enumerator, parameter"""
    N = 'q@'
    pieces = {
        'tag': 'struct q@ { int q@; char z; };\n',
        'tag2': 'struct q@ { char z; long q@; };\n',
        'memb': 'struct k@ { char z; int q@; };\n',
        'var': 'int q@ = 7;\n',
        'arr': 'char q@[3];\n',
        'fun': 'int q@(int a) { return a + 40; }\n',
        'enu': 'enum { q@ = 5 };\n',
        'etag': 'enum q@ { w@ = 9 };\n',
    }
    uses = {
        'tag': 'struct q@ s1; s1.q@ = 11; tv(s1.q@); tv(sizeof(struct q@));',
        'tag2': 'struct q@ s1; s1.q@ = 12; tv((int)s1.q@); tv(sizeof(struct q@));',
        'memb': 'struct k@ s2; s2.q@ = 13; tv(s2.q@); struct k@ *p2 = &s2; tv(p2->q@);',
        'var': 'tv(q@); q@ = q@ + 1; tv(q@);',
        'arr': 'q@[1] = 4; tv(q@[1]); tv(sizeof q@);',
        'fun': 'tv(q@(2));',
        'enu': 'tv(q@);',
        'etag': 'tv(w@); enum q@ e1 = w@; tv(e1);',
    }
    for r in range(1, 4):
        for ks in itertools.permutations(pieces, r):
            if sum(k in ('tag', 'tag2', 'etag') for k in ks) > 1 or sum(k in ('var', 'arr', 'fun', 'enu') for k in ks) > 1:
                continue
            for us in itertools.permutations(ks):
                src = ''.join(pieces[k] for k in ks) + 'int f@(void) { %s return 0; }' % ' '.join(uses[k] for k in us)
                yield from wf('%s', src)
    # local declaration of each kind shadowing a file-scope declaration of each kind; file-scope one back afterwards
    loc = {
        'var': ('int q@ = 21;', 'tv(q@);'), 'ptr': ('int z; int *q@ = &z; *q@ = 22;', 'tv(*q@);'), 'arr': ('char q@[2]; q@[1] = 23;', 'tv(q@[1]); tv(sizeof q@);'),
        'enu': ('enum { q@ = 24 };', 'tv(q@);'), 'tag': ('struct q@ { char a[5]; };', 'tv(sizeof(struct q@));'), 'etag': ('enum q@ { y = 26 };', 'tv(y);'),
        'long': ('long q@ = 27;', 'tv(sizeof q@); tv((int)q@);'),
        'fp': ('int (*q@)(int) = h@;', 'tv(q@(1));'),
    }
    for g in pieces:
        for (l, (d, u)) in loc.items():
            for pre in (0, 1):
                yield from wf('int h@(int a) { return a + 60; }\n%s', pieces[g] + 'int f@(void) { %s { %s %s } %s return 0; }' % ('{ %s }' % uses[g] if pre else '', d, u, uses[g]))
            for (l2, (d2, u2)) in loc.items():
                yield from wf('int h@(int a) { return a + 60; }\n%s', pieces[g] + 'int f@(void) { { %s { %s %s } %s } %s return 0; }' % (d, d2, u2, u, uses[g]))
            yield from wf('int h@(int a) { return a + 60; }\n%s', pieces[g] + 'int f@(void) { if (1) { %s %s } else { %s %s } { %s } return 0; }' % (d, u, d, u, uses[g]))
            yield from wf('int h@(int a) { return a + 60; }\n%s', pieces[g] + 'int f@(void) { int i; for (i = 0; i < 2; i++) { %s %s } while (i < 4) { %s %s i++; } switch (i) { case 4: { %s %s } } { %s } return 0; }' % (d, u, d, u, d, u, uses[g]))


def part_params(tier):
    """parameters: their scope is the function; names shared with globals, functions, other functions' parameters and locals"""
    for t in T:
        yield Unit('%s a@ = 3; int b@ = 4;\nint g@(%s a@, int b@) { return a@ * 10 + b@; }\nint f@(int x, int y) { return g@(y, x) * 100 + a@ * 10 + b@; }' % (t, t), [(1, 2), (5, 6)], tag='shadow')
        yield Unit('int g@(%s x) { int y = x; { %s x = 9; y += x; } return y * 10 + x; }\nint f@(int x) { return g@(x + 1) * 100 + x; }' % (t, t), [(1,), (2,)], tag='inner')
        yield Unit('int g@(%s g@) { return g@ + 1; }\nint f@(int a) { return g@(a); }' % t, [(1,), (2,)], tag='self')
        yield Unit('int f@(int f@) { return f@ + 1; }', [(1,)], tag='self')
        yield Unit('int g@(int a) { return a; }\nint f@(int a) { %s g@x = 5; { int g@ = 6; a += g@; } return g@(a) + g@x; }' % t, [(1,)], tag='hidefun')
    for p in itertools.permutations(['x', 'y', 'z']):
        yield Unit('int g@(int %s, char %s, long %s) { return x * 100 + y * 10 + (int)z; }\nint f@(void) { int x = 1; int y = 2; int z = 3; return g@(%s, %s, %s); }' % (p + p), tag='perm')
        yield Unit('int g@(int %s, char %s, long %s) { return x * 100 + y * 10 + (int)z; }\nint f@(void) { int x = 1; int y = 2; int z = 3; return g@(z, x, y) + x * 7 + y * 11; }' % p, tag='perm')
    # prototypes: parameter names are theirs alone
    yield Unit('int g@(int x, int y);\nint x = 5;\nint f@(void) { int y = x; return y; }'.replace('x', 'x@').replace('y', 'y@'), tag='proto')
    # same names in many functions
    for n in [2, 5, 20, 80]:
        src = ''.join('int g@_%d(int a, int b) { int c = a + %d; { int a = b; c = c * 2 + a; } return c; }\n' % (i, i) for i in range(n))
        yield Unit(src + 'int f@(int k) { int a = 1; int b = 2; int c = 3; %s return c * 10 + a + b; }' % ' '.join('c = c * 3 %% 10007 + g@_%d(a + k, b);' % i for i in range(n)), [(0,), (9,)], tag='many')


def part_tags(tier):
    """struct tags: an inner definition hides the outer one and only there; objects keep the type they were declared with"""
    O = 'struct S@ { int a; int b; };\n'
    inner = [('struct S@ { char a; long b; };', 16, 'long'), ('struct S@ { int b; int a; };', 8, 'int'), ('struct S@ { char b; };', 1, 'char'), ('struct S@ { int z[4]; int b; };', 20, 'int')]
    for idef, isz, it in inner:
        D = dict(o=O, i=idef)
        P = [
            '%(o)sint f@(void) { struct S@ x; x.a = 1; x.b = 2; { %(i)s struct S@ y; y.b = 5; tv((int)y.b); tv(sizeof y); tv(sizeof(struct S@)); } tv(x.a); tv(x.b); tv(sizeof(struct S@)); struct S@ z; z.b = 9; tv(z.b); return 0; }',
            '%(o)sint g@(void) { %(i)s struct S@ y; y.b = 5; return (int)y.b + sizeof y; }\nint f@(void) { struct S@ x; x.a = 1; x.b = 2; return g@() * 100 + x.a + x.b * 10; }',
            '%(o)sint f@(void) { { %(i)s struct S@ y; y.b = 5; tv((int)y.b); } { struct S@ y; y.a = 3; y.b = 6; tv(y.b); tv(y.a); } return 0; }',
            '%(o)sint f@(void) { { %(i)s struct S@ y; y.b = 5; struct S@ *p = &y; tv((int)p->b); } struct S@ v[2]; v[1].b = 4; v[1].a = 5; tv(v[1].b); tv((int)((char*)&v[1] - (char*)&v[0])); return 0; }',
            '%(o)sint f@(void) { if (1) { %(i)s struct S@ y; y.b = 5; tv((int)y.b); } else { struct S@ y; y.a = 1; tv(y.a); } struct S@ w; w.a = 4; tv(w.a); return 0; }',
            'int f@(void) { { %(i)s struct S@ y; y.b = 5; tv((int)y.b); } struct S@ { int a; int b; }; struct S@ w; w.a = 4; w.b = 3; tv(w.a); tv(w.b); return 0; }',
        ]
        for s in P:
            yield Unit(s % D, tag='tags')
        # an object of the outer type used where the inner tag is visible
        X = [
            '%(o)sint f@(void) { struct S@ x; x.a = 1; x.b = 2; { %(i)s struct S@ y; y.b = 5; x.b = 7; tv(x.b); tv(x.a); } tv(x.b); tv(x.a); return 0; }',
            '%(o)sstruct S@ g@;\nint f@(void) { g@.a = 1; g@.b = 2; { %(i)s tv(g@.a); tv(g@.b); g@.b = 4; } tv(g@.b); return 0; }',
            '%(o)sint f@(void) { struct S@ x; struct S@ *p = &x; x.a = 1; x.b = 2; { %(i)s tv(p->b); p->b = 3; tv((*p).a); } tv(x.b); return 0; }',
            '%(o)sint f@(void) { struct S@ v[2]; struct S@ *p = v; v[1].b = 2; { %(i)s tv(v[1].b); tv((p + 1)->b); tv(sizeof v[0]); } return 0; }',
        ]
        for k, s in enumerate(X):
            yield Unit(s % D, tag='tags-outer')
    # self reference and references between tags
    for pre in ['', 'struct S@ { char q; };\n']:
        yield Unit(pre + 'int f@(void) { struct S@ { int b; struct S@ *n; }; struct S@ x; struct S@ y; x.n = &y; y.n = &x; x.b = 3; y.b = 4; tv(x.n->b); tv(x.n->n->b); tv(y.n[0].b); tv(sizeof *x.n); return 0; }', tag='selfref')
        yield Unit(pre + 'int f@(void) { struct T@ { int c; }; struct S@ { struct T@ t; int b; }; struct S@ x; x.t.c = 3; x.b = 4; tv(x.t.c); tv(x.b); tv(sizeof x); return 0; }', tag='nest')
    # three levels of the same tag, with every object used at every level below its declaration
    defs = ['struct S@ { int a; int b; };', 'struct S@ { char b; long a; struct S@ *n; };', 'struct S@ { char z[3]; int a; char b; };']
    for d0, d1, d2 in itertools.permutations(defs):
        for arr in (0, 1):
            v = '%s' if not arr else '%s[1]'
            dl = lambda n: 'struct S@ %s%s; ' % (n, '[2]' if arr else '')
            x, y, z = v % 'x', v % 'y', v % 'z'
            use = lambda *o: ' '.join('tv((int)%s.a); tv((int)%s.b); %s.a = %s.a + 1;' % (q, q, q, q) for q in o)
            ini = lambda q, k: '%s.a = %d; %s.b = %d; ' % (q, k, q, k + 1)
            yield Unit('%s\nint f@(void) { %s%s { %s %s%s%s { %s %s%s%s tv(sizeof x); tv(sizeof y); tv(sizeof z); } %s } %s return sizeof(struct S@); }' % (
                d0, dl('x'), ini(x, 10), d1, dl('y'), ini(y, 20), use(x, y), d2, dl('z'), ini(z, 30), use(x, y, z), use(x, y), use(x)), tag='three')
            yield Unit('%s\nint g@(struct S@ *p) { %s struct S@ q; q.b = 4; { %s struct S@ r; r.b = 5; struct S@ *s = &r; p->b = p->b + s->b; q.b = q.b + (*s).b; } return (int)q.b * 10 + (int)p->b; }\n'
                       'int f@(void) { struct S@ x; x.a = 1; x.b = 2; return g@(&x) * 100 + (int)x.a; }' % (d0, d1, d2), tag='three')
    yield Unit('struct S@ { int a; int b; };\nint f@(void) { struct S@ x; x.a = 3; { enum S@ { A = 4 }; x.b = A; tv(x.a); } return x.b; }', tag='enumhides')
    yield Unit('enum S@ { Z@ = 4 };\nint f@(void) { enum S@ x = Z@; { struct S@ { int b; }; struct S@ y; y.b = 3; x = x + y.b; } return x + Z@; }', tag='hidesenum')
    yield Unit('struct S@ { int a; int b; };\nint f@(void) { typedef struct S@ { char a; } T; T z; { struct S@ { int q; }; T w; w.a = 1; z.a = w.a; tv(sizeof w); } return z.a; }', tag='tdhides')
    yield Unit('struct S@ { int a; int b; };\nint f@(void) { struct S@ { char a; char b; } y = {1, 2}; struct S@ v[2] = {{3, 4}, {5, 6}}; return v[1].a * 100 + v[0].b * 10 + y.b; }', tag='inithides')
    # members have a name space per struct
    for a, b in itertools.product(['int m; char n;', 'char n; int m;', 'long m; int n;', 'char m[3]; int n;'], repeat=2):
        ea = 'x.m' if '[' not in a else 'x.m[2]'
        eb = 'y.m' if '[' not in b else 'y.m[2]'
        yield Unit('struct A@ { %s };\nstruct B@ { %s };\nint f@(void) { struct A@ x; struct B@ y; int m = 1; int n = 2; %s = 3; x.n = 4; %s = 5; y.n = 6; tv(m); tv(n); tv((int)%s); tv(x.n); tv((int)%s); tv(y.n); return sizeof x * 100 + sizeof y; }' % (a, b, ea, eb, ea, eb), tag='members')
    # the same tag in two functions, in sibling blocks, defined inside declarations
    yield Unit('int g@(void) { struct L@ { char a; int b; }; struct L@ x; x.b = 3; return x.b + sizeof x; }\nint h@(void) { struct L@ { long a; char b; }; struct L@ x; x.b = 4; return x.b + sizeof x; }\nint f@(void) { return g@() * 100 + h@(); }', tag='two')
    yield Unit('int f@(void) { { struct L@ { char a; int b; } x; x.b = 3; tv(x.b); tv(sizeof x); } { struct L@ { long a; char b; } x; x.b = 4; tv(x.b); tv(sizeof x); } { struct L@ { char a[3]; } x; tv(sizeof x); } return 0; }', tag='two')
    yield Unit('struct A@ { int m; struct B@ { char c; long d; } in; int e; } g@;\nint f@(void) { struct B@ z; z.d = 4; g@.in.d = 5; g@.e = 6; g@.m = 7; return (int)z.d * 1000 + (int)g@.in.d * 100 + g@.e * 10 + g@.m + sizeof g@ + sizeof z; }', tag='inner')
    yield Unit('struct { int a; char b; } g@; struct { char a; long b; } h@;\nint f@(void) { struct { char b; int a; } l; g@.a = 1; g@.b = 2; h@.a = 3; h@.b = 4; l.a = 5; l.b = 6; return g@.a + g@.b * 10 + h@.a * 100 + (int)h@.b * 1000 + l.a * 10000 + l.b * 100000 + sizeof g@ + sizeof h@ + sizeof l; }', tag='anon')
    yield Unit('int f@(void) { enum { A = 3, B, C = A * 1, D } ; { enum { B = 50, E }; tv(B); tv(E); tv(C); } tv(B); tv(D); { int A = 9; tv(A); } tv(A); return 0; }'.replace('C = A * 1', 'C = 8'), tag='enum')
    yield Unit('enum X@ { P@, Q@ = 4, R@ };\nint g@(void) { enum X@ { R@ = 11, P@ }; return R@ * 10 + P@; }\nint f@(void) { enum X@ v = R@; return g@() * 1000 + P@ * 100 + Q@ * 10 + v; }', tag='enum')
    # typedefs
    yield Unit('typedef int t@; typedef char u@[3]; typedef struct { int a; t@ b; } s@; typedef s@ *p@;\nint f@(void) { t@ a = 3; u@ b; s@ c; p@ d = &c; b[2] = 4; d->b = 5; c.a = a; return a + b[2] * 10 + c.b * 100 + d->a * 1000 + sizeof(u@) + sizeof(s@) + sizeof(p@); }', tag='typedef')
    yield Unit('typedef long t@;\nint g@(t@ t) { return sizeof t; }\nint f@(void) { t@ x = 1; { typedef t@ v@; v@ y = 2; x += y; } return (int)x * 10 + g@(x); }', tag='typedef')


def part_globals(tier):
    """functions and globals: visible from their declaration on, one object for all functions"""
    for n in [1, 2, 3, 7, 30, 120]:
        src = ''.join('int v@_%d; int s@_%d(int a) { v@_%d = v@_%d + a; return v@_%d; }\n' % ((i,) * 5) for i in range(n))
        yield Unit(src + 'int f@(void) { %s %s return 0; }' % (' '.join('v@_%d = %d; s@_%d(%d);' % (i, i * 3, i, i + 1) for i in range(n)), ' '.join('tv(v@_%d);' % i for i in range(n))), tag='many')
    yield Unit('int od@(int n);\nint ev@(int n) { if (n == 0) return 1; return od@(n - 1); }\nint f@(int n) { return ev@(n) * 10 + od@(n); }\nint od@(int n) { if (n == 0) return 0; return ev@(n - 1); }', [(0,), (1,), (7,), (8,)], tag='mutual', opt=True)
    yield Unit('int c@; int n@(void) { c@ = c@ + 1; return c@; }\nint f@(void) { c@ = 5; int a = n@(); int b = n@(); { int c@ = 100; a = a * 10 + n@() + c@; } return a * 100 + b + c@; }', tag='shared')


# (opening, closing) of every construct that opens a scope; % is replaced by the loop variable's name
NESTS = [('{', '}'), ('if (c) {', '}'), ('if (!c) ; else {', '}'), ('switch (c) { case 1: {', '} }'), ('switch (c) { default: {', '} }'), ('for (int % = 0; % < 2; %++) {', 'tv(%); }'),
         ('for (long % = 7; % < 8; %++) { char y = 4;', 'tv((int)%); tv(y); }'), ('while (c) {', 'c = 0; }'), ('for (int k = 3, % = 0; % < 2; %++) {', 'tv(k + %); }'), ('if (c) { char z[5]; z[4] = 9;', 'tv(z[4]); }')]
KINDS = [('int % = 11;', 'tv(%);'), ('char % = 12;', 'tv(%);'), ('long %[3]; %[0] = 5; %[2] = 13;', 'tv((int)(%[0] + %[2]));'), ('char %[9]; %[8] = 14; %[0] = 3;', 'tv(%[8] + %[0]);'), ('int v% = 3; int *% = &v%; *% = *% + 15;', 'tv(*%);'),
         ('struct { char a; long b; } %; %.b = 16; %.a = 2;', 'tv((int)(%.b + %.a));'), ('enum T% { E% = 17 }; int % = E%;', 'tv(%);')]


def part_frames(tier):
    """objects of every kind in every nest of scopes (also several in a row) keep their values while functions are called that
    use the stack below, and while the scopes after and inside them use theirs"""
    pre = 'int h@(int n) { int a[20]; int i; for (i = 0; i < 20; i++) a[i] = -1; return n ? a[3] + h@(n - 1) : a[7]; }\nint k@(int a, int b, int c, int d, int e, int f, int g) { return a + g; }\n'
    call = 'h@(2); k@(1, 2, 3, 4, 5, 6, 7);'
    def unit(body):
        return Unit(pre + 'int f@(int c) { %s return 0; }' % body, [(1,)], tag='frames')
    for n, (o, z) in enumerate(NESTS):
        for d, u in KINDS:
            for nm in ('i', 'x'):
                q = lambda t: t.replace('%', nm)
                p = lambda t: t.replace('%', 'j')
                one = '%s %s %s %s %s' % (p(o), q(d), call, q(u), p(z))
                if 'for' in o and nm == 'i':
                    one = '%s %s %s' % (q(o), call, q(z))
                yield unit(one)
                yield unit('int w = 7; char y = 8; %s tv(w + y); %s %s tv(w + y);' % (call, one, one))
                for o2, z2 in NESTS:
                    yield unit('%s %s %s' % (p(o2), one.replace('j', 'm'), p(z2)))
                    yield unit('int w = 7; %s %s tv(w); %s' % (one, call, '%s int t = 6; %s tv(t); %s' % (q(o2), call, q(z2))))
                    for d2, u2 in KINDS if tier == 'thorough' else KINDS[(n % 2)::3]:
                        r = lambda t: t.replace('%', 'g')
                        yield unit('%s %s %s %s %s %s' % (p(o2), r(d2), one.replace('j', 'm'), call, r(u2), p(z2)))
                        yield unit('%s %s %s %s' % (r(d2), one, '%s %s %s %s %s' % (p(o2), q(d2), call, q(u2), p(z2)), r(u2)))


def part_long(tier):
    """names are told apart by every character: pairs that differ in one position only, in every kind of name"""
    for n in [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 128] + ([200, 256, 300, 512] if tier == 'thorough' else []):
        for k in sorted(set([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14, 15, 16, 30, 31, 32, 62, 63, 64, n // 2, n - 2, n - 1])):
            if not 0 <= k < n:
                continue
            base = ['abcdefghijklmnopqrstuvwxyz_ABCDEFGHIJKLMNOPQRSTUVWXYZ'[(i * 7) % 53] for i in range(n)]
            for c in 'QZ_' + ('09' if k else ''):
                if c == base[k]:
                    continue
                a, b = ''.join(base), ''.join(base[:k] + [c] + base[k + 1:])
                if n == 2 and 'do' in (a, b):
                    continue
                for src in ['int f@(void) { int A = 3; char B = 4; tv(A); { int B = 7; tv(A + B); A = 5; } tv(B); return A; }',
                            'int g@(int A, char B) { return A * 10 + B; }\nint f@(void) { return g@(3, 4); }',
                            'struct s@ { int A; char B; };\nint f@(void) { struct s@ x; x.A = 3; x.B = 4; return x.A * 10 + x.B + sizeof x; }',
                            'int f@(void) { struct A { int m; }; struct B { char n[3]; }; struct A x; struct B y; struct A *p = &x; struct B *q = &y; p->m = 3; q->n[2] = 4; return x.m * 10 + y.n[2] + sizeof(struct A) * 100 + sizeof *q * 1000; }',
                            'int f@(void) { enum T@ { A = 3, B = 4 }; return A * 10 + B; }', 'int f@(void) { typedef char A[3]; typedef long B; return sizeof(A) * 10 + sizeof(B); }']:
                    yield Unit(src.replace('A', '#').replace('B', b).replace('#', a), tag='long names')
                if n < 32 or k in (0, n - 1):
                    a, b = a + '@', b + '@'
                    yield Unit('int %s = 3; char %s = 4;\nint f@(void) { %s = 5; return %s * 10 + %s; }' % (a, b, a, a, b), tag='long names')
                    yield Unit('int %s(void) { return 3; } int %s(void) { return 4; }\nint f@(void) { return %s() * 10 + %s(); }' % (a, b, a, b), tag='long names')


PARTS = [('blocks', part_blocks), ('v:blocks', part_vblocks), ('two', part_two), ('spaces', part_spaces), ('params', part_params), ('tags', part_tags), ('globals', part_globals), ('frames', part_frames), ('long', part_long)]
