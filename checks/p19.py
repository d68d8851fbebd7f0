"""Type identity: two types are taken for the same exactly when C says they are compatible, in every context where it matters,
for all pairs of types built by composing declarators up to a depth, and for every spelling of one type."""
import itertools
from harness import *
from gen import *

PRE = '''typedef int ti; typedef char *tcp; typedef int ta[3]; typedef int tf(int); typedef int (*tpf)(int); struct s { int m; char n; }; typedef struct s ts; struct t { int m; char n; }; typedef struct t tt;
enum e { EA }; typedef struct { int m; char n; } tu; typedef struct { int m; int n; } tw; typedef ti tti; typedef ts *tsp;
'''
BASES = ['char', 'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'void', 'struct s', 'struct t', 'tu', 'tw', 'enum e']
LAYERS = ['*@', '(@)[2]', '(@)[3]', '(@)(void)', '(@)(int)', '(@)(char *)', '(@)(int, int)']


def compose(d, layer):
    """declarator d (with @ for what follows inside) wrapped so that the composed type is <layer> of d's hole"""
    return d.replace('@', layer)


def ok(layers):
    """no arrays of functions, functions returning arrays or functions (outermost first)"""
    for a, b in zip(layers, layers[1:]):
        if '[' in a and b.endswith(')'):
            return False
        if a.endswith(')') and ('[' in b or b.endswith(')')):
            return False
    return True


def types(depth):
    """(base, layers) with the outermost derivation first"""
    for n in range(depth + 1):
        for ls in itertools.product(LAYERS, repeat=n):
            if not ok(ls):
                continue
            for b in BASES:
                if b == 'void' and ls and '[' in ls[-1]:
                    continue
                if b in ('struct s', 'struct t', 'tu', 'tw') and ls and ls[-1].endswith(')'):
                    continue        # structures returned by value are not supported
                if n == 0 and b == 'void':
                    pass
                yield b, ls


def decl(b, ls, name):
    d = name
    for l in ls:
        d = l.replace('@', d) if not (l == '*@') else '*' + d
        # a pointer applied before an array or function needs parentheses, which the layers put themselves
    return '%s %s' % (b, d)


def ptr_decl(t, name):
    return decl(t[0], ('*@',) + t[1], name)


def show(t):
    return decl(t[0], t[1], '')


def contexts(a, b):
    pa, pb = ptr_decl(a, 'a'), ptr_decl(b, 'b')
    yield 'int f(%s, %s) { a = b; return 0; }' % (pa, pb), 'assign'
    yield 'int f(%s) { %s = b; return 0; }' % (pb, pa), 'initialise'
    yield 'int g(%s); int f(%s) { return g(b); }' % (pa, pb), 'argument'
    yield 'int f(%s, %s) { return a == b; }' % (pa, pb), 'compare'
    yield 'int f(%s, %s, int c) { c ? a : b; return 0; }' % (pa, pb), 'conditional'
    yield 'int f(int (*a)(%s), int (*b)(%s)) { a = b; return 0; }' % (ptr_decl(a, ''), ptr_decl(b, '')), 'parameter types'
    yield '%s { return b; }' % decl(a[0], ('(@)(%s)' % pb, '*@') + a[1], 'f'), 'return'


def part_v_pairs(tier):
    ts1 = list(types(1))
    for a, b in itertools.product(ts1, repeat=2):
        for s, w in contexts(a, b):
            yield PRE + s, '%s: %s / %s' % (w, show(a), show(b))
    # depth 2 and 3: against every type that differs in one layer or the base, and against itself
    for a in types(3 if tier == 'thorough' else 2):
        if len(a[1]) < 2:
            continue
        near = {a}
        for b in BASES:
            near.add((b, a[1]))
        for i in range(len(a[1])):
            for l in LAYERS:
                near.add((a[0], a[1][:i] + (l,) + a[1][i + 1:]))
            near.add((a[0], a[1][:i] + a[1][i + 1:]))
        for b in sorted(near):
            if ok(b[1]) and not (b[0] == 'void' and b[1] and '[' in b[1][-1]) and not (b[0] in ('struct s', 'struct t', 'tu', 'tw') and b[1] and b[1][-1].endswith(')')):
                for s, w in contexts(a, b):
                    if len(a[1]) == 2 or w in ('assign', 'parameter types'):
                        yield PRE + s, '%s: %s / %s' % (w, show(a), show(b))
    if tier == 'thorough':
        ts2 = [t for t in types(2) if t[0] in ('int', 'char', 'void', 'struct s', 'tu', 'unsigned int')]
        for a, b in itertools.product(ts2, repeat=2):
            yield PRE + 'int f(%s, %s) { a = b; return 0; }' % (ptr_decl(a, 'a'), ptr_decl(b, 'b')), 'assign: %s / %s' % (show(a), show(b))


# spellings of the same type, as declarations of a pointer @ to it
SAME = [
    ['int *@', 'signed int *@', 'signed *@', 'int signed *@', 'ti *@', 'tti *@', 'int (*@)', 'int (*(@))', 'int *(@)', 'int ((*@))'],
    ['long *@', 'long int *@', 'int long *@', 'signed long *@', 'long signed int *@', 'int signed long *@'],
    ['unsigned int *@', 'unsigned *@', 'int unsigned *@'],
    ['unsigned long *@', 'unsigned long int *@', 'long unsigned *@', 'int long unsigned *@', 'long int unsigned *@'],
    ['long long *@', 'long long int *@', 'signed long long *@', 'long int long *@', 'long signed long int *@'],
    ['unsigned long long *@', 'long unsigned long *@', 'unsigned long long int *@', 'int long unsigned long *@'],
    ['char **@', 'tcp *@', 'char *(*@)', 'char **(@)'],
    ['int (*@)[3]', 'ta *@', 'ti (*@)[3]', 'tti (*@)[3]', 'int ((*@)[3])', 'int ((*@))[3]'],
    ['int (*@)(int)', 'tf *@', 'tpf @', 'int (*@)(int x)', 'ti (*@)(ti)', 'int (*@)(signed int)', 'int (*@)(tti y)', 'int ((*@)(int))'],
    ['int (**@)(int)', 'tpf *@', 'tf **@', 'int (*(*@))(int x)'],
    ['struct s *@', 'ts *@', 'tsp @', 'struct s (*@)'],
    ['struct t *@', 'tt *@'], ['tu *@'], ['tw *@'],
    ['void *@'], ['void (*@)(void)'],
    ['int (*@)(int *)', 'int (*@)(int [3])', 'int (*@)(int x[2])', 'int (*@)(ta)', 'int (*@)(ti *p)'],
    ['int (*@)(int (*)(int))', 'int (*@)(tf)', 'int (*@)(tpf)', 'int (*@)(int (int))', 'int (*@)(tf *g)', 'int (*@)(int g(int))'],
    ['int (*@)(int (*)[3])', 'int (*@)(int [2][3])', 'int (*@)(ta *)', 'int (*@)(ta x[5])'],
    ['int *(*@)(char **)', 'ti *(*@)(tcp *)', 'int *(*@)(char *[4])', 'int *(*@)(tcp [2])'],
    ['int (*(*@)(int))(int)', 'tpf (*@)(int)', 'tf *(*@)(int)'],
    ['int (*(*@)[2])[3]', 'ta *(*@)[2]'],
    ['struct s **@', 'ts **@', 'tsp *@'], ['struct s *(*@)[2]', 'tsp (*@)[2]', 'ts *(*@)[2]'],
]


def part_v_spell(tier):
    flat = [(i, s) for i, g in enumerate(SAME) for s in g]
    for (i, a), (j, b) in itertools.product(flat, repeat=2):
        w = '%s / %s' % (a, b)
        da, db = a.replace('@', 'a'), b.replace('@', 'b')
        yield PRE + 'int f(%s, %s) { a = b; return 0; }' % (da, db), 'assign ' + w
        yield PRE + 'int f(%s, %s) { return a == b; }' % (da, db), 'compare ' + w
        yield PRE + 'int g(%s); int f(%s) { return g(b); }' % (da, db), 'argument ' + w
        yield PRE + '%s; int f(%s) { %s = b; return 0; }' % (a.replace('@', 'x'), db, da), 'initialise ' + w
        yield PRE + 'int f(%s, %s, int c) { c ? a : b; return 0; }' % (da, db), 'conditional ' + w
        yield PRE + 'int f(int (*a)(%s), int (*b)(%s)) { a = b; return 0; }' % (a.replace('@', ''), b.replace('@', '')), 'parameter ' + w
        yield PRE + 'int f(%s, %s) { a = b; return 0; }' % (a.replace('@', '(*a)'), b.replace('@', '(*b)')), 'pointer to ' + w
        yield PRE + 'int f(%s, %s) { a = b; return 0; }' % (a.replace('@', '(*a)'), b.replace('@', 'b[3]')), 'array of ' + w
        yield PRE + 'struct w { %s; }; int f(struct w *a, %s) { a->m = b; return 0; }' % (a.replace('@', 'm'), db), 'member ' + w


def part_v_tags(tier):
    """types of the same tag, or the same members, in different scopes and declarations"""
    for outer, inner, use in itertools.product(
            ['struct s { int m; };', 'struct s;', 'typedef struct s s; struct s { int m; };', 'struct s { int m; char n; };', 'typedef struct { int m; } s;', ''],
            ['', 'struct s { int m; };', 'struct s { char m; };', 'struct s;', 'struct s *q; struct s { int m; };', 'struct s { struct s *n; int m; };', 'typedef struct { int m; } s;', 'struct q { struct s { int m; } x; };', 'enum s { A };'],
            ['struct s *b; a = b;', 'struct s *b; b = a;', 'struct s b; a = &b;', 'struct s b; b = *a;', 'struct s *b; a == b;', 'struct s *b; b->m = a->m;', 'a->m = 1;', 's *b; a = b;', 's b; a = &b;', 'struct s *b; return a - b;', 'struct s *b; b->n = a;', 'struct s *b; *b = *a;']):
        yield '%s int f(struct s *a) { { %s %s } return 0; }' % (outer, inner, use), 'tags'
        yield '%s struct s *g; int f(int z) { struct s *a; a = g; { %s %s } return 0; }' % (outer, inner, use), 'tags'
        yield '%s struct s *g; int f(int z) { %s struct s *a; a = g; %s return 0; }' % (outer, inner, use), 'tags'
        yield '%s int f(struct s *a) { { %s } %s return 0; }' % (outer, inner, use), 'tags closed'
        yield '%s int g(struct s *b); int f(struct s *a) { %s struct s *c; { %s } return g(c); }' % (outer, inner, use), 'tags call'


def part_v_untagged(tier):
    """two untagged structures are different types, whatever their members"""
    pre = 'typedef struct { int m; char n; } tu; typedef struct { int m; char n; } tw;\n'
    for k, (s, w) in enumerate(contexts(('tu', ()), ('tw', ()))):
        yield pre + s, w, 'untagged ' + w
    pre = 'typedef struct { int m; char n; } tu; typedef struct { %s } tw;\n'
    for m in ['char m; int n;', 'int m; char o;', 'int m;', 'int m; char n; char o;', 'int m; int n;', 'char m; char n;', 'int n; char m;', 'int m; char n[1];', 'int *m; char n;', 'unsigned int m; char n;', 'long m; char n;', 'struct { int m; } m; char n;']:
        for a, b in [('tu', 'tw'), ('tw', 'tu')]:
            for s, w in contexts((a, ()), (b, ())):
                yield pre % m + s, w


def part_v_lists(tier):
    """parameter lists, member lists and dimension lists: equal exactly when they agree in length and at every position"""
    P = ['int', 'char', 'long', 'char *', 'int *', 'struct s *', 'int (*)(int)']
    top = 4 if tier == 'thorough' else 3
    lists = [l for n in range(1, top + 1) for l in itertools.product(P[:4] if n > 2 else P, repeat=n)] + [('void',)]
    pairs = [(a, b) for a in lists for b in lists if len(a) <= 2 and len(b) <= 2 or len(a) == len(b) and sum(x != y for x, y in zip(a, b)) <= 1 or abs(len(a) - len(b)) == 1 and (a[:len(b)] == b or b[:len(a)] == a)]
    for n in range(4, 11):
        base = [tuple(P[(i * k + k) % len(P)] for i in range(n)) for k in range(3)]
        for b in base:
            pairs += [(b, b), (b, b[:-1]), (b[:-1], b), (b, b + ('int',))]
            for i in range(n):
                for t in P:
                    pairs.append((b, b[:i] + (t,) + b[i + 1:]))
    for a, b in pairs:
        w = '(%s) / (%s)' % (', '.join(a), ', '.join(b))
        la, lb = ', '.join(a), ', '.join(b)
        yield PRE + 'int f(int (*a)(%s), int (*b)(%s)) { a = b; return 0; }' % (la, lb), 'parameters, assign ' + w
        yield PRE + 'int h(%s); int f(int z) { int (*a)(%s) = h; return 0; }' % (lb, la), 'parameters, function to pointer ' + w
        yield PRE + 'int g(int (*a)(%s)); int h(%s); int f(int z) { return g(&h); }' % (la, lb), 'parameters, argument ' + w
        yield PRE + 'int f(int (**a)(%s), int (**b)(%s)) { return a == b; }' % (la, lb), 'parameters, compare ' + w
        ns = ['m%d' % i for i in range(12)]

        def members(l):
            return ' '.join((t.replace('(*)', '(*%s)' % m) if '(*)' in t else '%s %s' % (t, m)) + ';' for t, m in zip(l, ns))
        if a != b and a != ('void',) and b != ('void',):
            yield PRE + 'typedef struct { %s } xa; typedef struct { %s } xb; int f(xa *a, xb *b) { a = b; return 0; }' % (members(a), members(b)), 'members, assign ' + w
            yield PRE + 'typedef struct { %s } xa; typedef struct { %s } xb; xb g; int f(int z) { xa a; a = g; return 0; }' % (members(a), members(b)), 'members, copy ' + w
    for n in range(1, 9):      # one member named otherwise
        for i in range(n):
            ma = ' '.join('int m%d;' % k for k in range(n))
            mb = ' '.join('int %s%d;' % ('q' if k == i else 'm', k) for k in range(n))
            yield 'typedef struct { %s } xa; typedef struct { %s } xb; int f(xa *a, xb *b) { a = b; return 0; }' % (ma, mb), 'member names'
    dims = [d for n in (1, 2, 3) for d in itertools.product((1, 2, 3), repeat=n)] + [(2,) * n for n in range(4, 7)] + [(2,) * k + (3,) + (2,) * (5 - k) for k in range(6)]
    for a, b in itertools.product(dims, repeat=2):
        da, db = [''.join('[%d]' % x for x in d) for d in (a, b)]
        yield 'int f(int (*a)%s, int (*b)%s) { a = b; return 0; }' % (da, db), 'dimensions'
        yield 'int f(int a%s, int b%s) { a = b; return 0; }' % (da, db), 'dimensions of parameters'
        yield 'int b%s; int f(int (*a)%s) { a = &b; return 0; }' % (db, da), 'dimensions of an object'
    wide = [1, 2, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 130, 255, 256, 257, 258, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 65538, 131073, 1000000, 16777217]
    for a, b in itertools.product(wide, repeat=2):
        for t in ('int', 'char', 'char *', 'struct s'):
            if t != 'int' and tier != 'thorough' and (a + b) % 5:
                continue
            yield PRE + 'int f(%s (*a)[%d], %s (*b)[%d]) { a = b; return 0; }' % (t, a, t, b), 'size of an array'
            yield PRE + '%s b[3][%d]; int g(%s a[2][%d]); int f(int z) { return g(b); }' % (t, b, t, a), 'size of an array, argument'
        yield PRE + 'int f(int (*a)(int (*)[%d]), int (*b)(int (*)[%d])) { return a == b; }' % (a, b), 'size of an array in a parameter'
        yield 'typedef struct { char c; int m[%d]; } xa; typedef struct { char c; int m[%d]; } xb; int f(xa *a, xb *b) { a = b; return 0; }' % (a, b) if a != b else 'typedef struct { char c; int m[%d]; } xa; int f(xa *a, xa *b) { a = b; return 0; }' % a, 'size of a member'



def part_v_names(tier):
    """structures of the same members are told apart by every character of their tags"""
    def uses(a, b):
        pre = 'struct %s { int m; char n; }; struct %s { int m; char n; }; ' % (a, b) if a != b else 'struct %s { int m; char n; }; ' % a
        a, b = 'struct ' + a, 'struct ' + b
        yield pre + 'int f(%s *a, %s *b) { a = b; return 0; }' % (a, b)
        yield pre + 'int f(%s *b) { %s *a = b; return 0; }' % (b, a)
        yield pre + '%s g; int f(%s *b) { %s a; a = *b; return g.m; }' % (b, b, a)
        yield pre + 'int g(%s *a); int f(%s *b) { return g(b); }' % (a, b)
        yield pre + 'int f(%s *a, %s *b) { return a == b; }' % (a, b)
        yield pre + '%s *f(%s *b) { return b; }' % (a, b)
        yield pre + 'int f(%s (*a)[2], %s (*b)[2]) { a = b; return 0; }' % (a, b)
        yield pre + 'int f(int (*a)(%s *), int (*b)(%s *)) { a = b; return 0; }' % (a, b)
        yield pre + 'int f(int c, %s *a, %s *b) { c ? a : b; return 0; }' % (a, b)
        if a != b:
            yield pre + 'typedef struct { %s *p; int q; } xa; typedef struct { %s *p; int q; } xb; int f(xa *a, xb *b) { a = b; return 0; }' % (a, b)
        yield pre + 'typedef %s xa; typedef %s xb; int f(xa *a, xb *b) { a = b; return 0; }' % (a, b)
    for n in list(range(1, 20)) + [23, 24, 25, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65, 80, 127, 128, 129, 200, 255, 256, 257] + ([500, 1000, 1023, 1024, 1025] if tier == 'thorough' else []):
        base = ''.join('qwertyuiopasdfghjklzxcvbnm_QWERTYUIOPASDFGHJKLZXCVBNM'[(i * 11) % 53] for i in range(n))
        others = {base, base + 'x', base + '0', base + '_', base[0] + base, base.swapcase(), base[::-1], base[:-1] or 'Y'}
        for k in range(n) if n <= 33 else sorted({0, 7, 8, 15, 16, 31, 32, 63, 64, n // 2, n - 2, n - 1} & set(range(n))):
            for c in 'Z_' + ('7' if k else ''):
                others.add(base[:k] + c + base[k + 1:])
        for o in sorted(others):
            for src in uses(base, o):
                yield src, 'tags %s / %s' % (base, o)


PARTS = [('v:names', part_v_names), ('v:lists', part_v_lists), ('v:untagged', part_v_untagged), ('v:pairs', part_v_pairs), ('v:spell', part_v_spell), ('v:tags', part_v_tags)]
