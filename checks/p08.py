"""Initializers: after initialisation every element and member holds exactly the value given for it, converted to its type,
and everything without an initializer is zero; for locals and globals, all shapes and prefixes."""
from harness import *
from gen import *
import functools

# shapes: scalar type name | ('arr', n, shape) | ('struct', [shape...])
SC = ['char', 'int', 'long', 'unsigned int', 'unsigned long']


class B:
    """builds declarations for a shape"""

    def __init__(self):
        self.pre = ''
        self.n = 0

    def decl(self, sh, name):
        """(base type, declarator)"""
        dims = ''
        while sh[0] == 'arr':
            dims += '[%d]' % sh[1]
            sh = sh[2]
        if sh[0] == 'struct':
            tag = self.tag(sh)
            return 'struct %s %s%s' % (tag, name, dims)
        return '%s %s%s' % (sh, name, dims)

    def tag(self, sh):
        ms = ' '.join(self.decl(m, 'm%d' % i) + ';' for i, m in enumerate(sh[1]))
        t = 'T@_%d' % self.n
        self.n += 1
        self.pre += 'struct %s { %s };\n' % (t, ms)
        return t


def leaves(sh, acc=''):
    """(accessor, type) of every scalar"""
    if isinstance(sh, str):
        return [(acc, sh)]
    if sh[0] == 'arr':
        return [x for i in range(sh[1]) for x in leaves(sh[2], acc + '[%d]' % i)]
    return [x for i, m in enumerate(sh[1]) for x in leaves(m, acc + '.m%d' % i)]


def inits(sh, val, cut=None):
    """every fully braced initializer list in which each list may stop early (never empty)"""
    if isinstance(sh, str):
        yield val
        return
    subs = [sh[2]] * sh[1] if sh[0] == 'arr' else sh[1]
    opts = [list(inits(s, val)) for s in subs]
    for k in range(1, len(subs) + 1):
        for c in itertools.product(*opts[:k]):
            yield '{' + ', '.join(c) + '}'


def number(s, vals):
    i = 0
    out = ''
    for ch in s:
        if ch == '#':
            out += vals[i % len(vals)]
            i += 1
        else:
            out += ch
    return out


GV = ['7', '250', '65', '70000', '3', '2147483647', '5000000000', '128', '4294967295', "'z'", '9223372036854775807', '1']
LV = ['7', '-250', 'a', '70000 + a', 'a * 3', '-1', 'b', '(char)b', 'a - b', 'a ? 4 : 5', 'g@(a)', '1u', '-a', '5000000000l']


def shapes():
    out = []
    for t in SC:
        for n in (1, 2, 3, 4, 5):
            out.append(('arr', n, t))
        out.append(('arr', 2, ('arr', 3, t)))
        out.append(('arr', 3, ('arr', 2, t)))
    for t in ('char', 'int'):
        out.append(('arr', 2, ('arr', 2, ('arr', 2, t))))
    for n in (1, 2, 3):
        for ts in itertools.product(['char', 'int', 'long'], repeat=n):
            out.append(('struct', list(ts)))
    for t in ('char', 'int', 'long'):
        for u in ('char', 'int', 'long'):
            out.append(('struct', [t, ('arr', 3, u)]))
            out.append(('struct', [('arr', 3, u), t]))
            out.append(('struct', [t, ('struct', [u, t]), u]))
            out.append(('arr', 2, ('struct', [t, u])))
            out.append(('arr', 3, ('struct', [t, u])))
            out.append(('arr', 2, ('struct', [t, ('arr', 2, u)])))
            out.append(('struct', [('arr', 2, ('struct', [t, u])), t]))
    out.append(('arr', 2, ('arr', 2, ('struct', ['char', 'int']))))
    out.append(('struct', ['char', ('struct', ['int', ('struct', ['char', 'long']), 'char']), 'char']))
    return out


def part_shapes(tier):
    cap = 60 if tier != 'thorough' else 400
    for sh in shapes():
        alls = list(itertools.islice(inits(sh, '#'), 4000))
        step = max(1, len(alls) // cap)
        sel = alls[::step]
        if alls[-1] not in sel:
            sel.append(alls[-1])
        for k, ini in enumerate(sel):
            b = B()
            d = b.decl(sh, 'v')
            reads = ' '.join('tvl(v%s);' % acc for acc, t in leaves(sh))
            r2 = ' '.join('tvl(v@%s);' % acc for acc, t in leaves(sh))
            gi = number(ini, GV[k % len(GV):] + GV[:k % len(GV)])
            li = number(ini, LV[k % len(LV):] + LV[:k % len(LV)])
            yield Unit(b.pre + 'int g@(int x) { return x + 9; }\nint f@(int a, long b) { %s = %s; %s return 0; }' % (d, li, reads), [(3, 5), (-77, 1 << 40)],
                       tag='local')
            import re
            yield Unit(b.pre + re.sub(r'\bv\b', 'v@', d) + ' = %s;\nint f@(void) { %s return 0; }' % (gi, r2), tag='global')
            if k == len(sel) // 2 or k == 0:
                # in an inner block executed repeatedly, after the stack was dirtied
                yield Unit(b.pre + 'int g@(int x) { long m[20]; int i; for (i = 0; i < 20; i++) m[i] = -1; return x + 9 + 0 * m[3]; }\n'
                           'int f@(int a, long b) { int i; g@(1); for (i = 0; i < 2; i++) { %s = %s; %s v%s = 55; a = a + 1; } return 0; }' % (
                               d, li, reads, leaves(sh)[-1][0]), [(3, 5)], tag='local-block')
                # an initialised object between two others
                yield Unit(b.pre + 'int g@(int x) { return x; }\nint f@(int a, long b) { char x = 11; %s = %s; char y = 22; tv(x); tv(y); %s return 0; }' % (d, li, reads),
                           [(3, 5)], tag='local-between')
                yield Unit(b.pre + 'char x@ = 11; ' + re.sub(r'\bv\b', 'v@', d) + ' = %s; char y@ = 22;\nint f@(void) { tv(x@); tv(y@); %s return 0; }' % (gi, r2), tag='global-between')


def part_zero(tier):
    """objects without initializer at file scope are zero"""
    for sh in shapes() + SC:
        b = B()
        d = b.decl(sh, 'v@')
        yield Unit(b.pre + 'char x@ = 1; %s; char y@ = 2;\nint f@(void) { %s tv(x@); tv(y@); return 0; }' % (d, ' '.join('tvl(v@%s);' % a for a, t in leaves(sh))), tag='zero')
    for d in ['int *v@', 'char *v@[3]', 'int (*v@)(int)', 'struct Q@ { int *p; char c; } v@', 'int (*v@[2])(int)', 'struct Q@ { int x; struct Q@ *n; } v@[2]']:
        yield Unit('%s; char y@ = 3;\nint f@(void) { char *b = (char *)&v@; int i; for (i = 0; i < sizeof v@; i++) tv(b[i]); return y@; }' % d, tag='zero-ptr')


def part_scalar(tier):
    """scalar initializers: every type from every constant form and from every type"""
    consts = ['0', '1', '127', '128', '255', '256', '32767', '65535', '65536', '2147483647', '2147483648', '4294967295', '4294967296', '4294967297',
              '9223372036854775807', '1u', '4294967295u', '1l', '9223372036854775807l', '18446744073709551615ul', '9223372036854775808u', '0x7f', '0x80', '0xff', '0xffff',
              '0x7fffffff', '0x80000000', '0xffffffff', '0x123456789abcdef0', '0xffffffffffffffff', '0177', '0377', '037777777777', "'a'", "'\\0'", "'\\n'", "'\\xff'",
              "'\\x80'", "'\\177'", "'\\377'", '1ll', '1ull', '0ll', '00', '0x0']
    wr = ['%s', '(%s)', '{%s}', '((%s))', '{%s,}']
    soft = ['(char)%s', '(int)%s', '(long)%s', '(unsigned int)%s', '(unsigned long)(char)%s', '(char)(long)%s', '(long)(unsigned int)%s', '-%s', '~%s', '+%s', '!%s', '1 + %s', '%s - 1', '2 * %s',
            '(int)(char)%s', '(unsigned int)(char)%s', '(long long)(int)%s', '((char)(%s))', '(char)(unsigned int)(long)%s']
    for t in TYPES:
        for c in consts:
            for w in wr:
                yield Unit('%s v@ = %s;\nlong f@(void) { return v@; }' % (t, w % c), tag='global-scalar')
            for w in wr[:3] + ['-%s', '~%s', '(char)%s', '(long)(char)%s', '(unsigned int)%s']:
                yield Unit('long f@(void) { %s v = %s; return v; }' % (t, w % c), tag='local-scalar')
            for w in soft:
                yield Unit('%s v@ = %s;\nlong f@(void) { return v@; }' % (t, w % c), opt=True, tag='global-folded')
        for u in TYPES:
            yield Unit('long f@(%s a) { %s v = a; return v; }' % (u, t), [(v,) for v in VALS[u]], tag='local-conv')
            yield Unit('long f@(%s a) { %s v[3] = {a, a}; tvl(v[0]); tvl(v[2]); return v[1]; }' % (u, t), [(v,) for v in VALS[u]], tag='local-arr-conv')
            yield Unit('struct S@ { char c; %s x; };\nlong f@(%s a) { struct S@ v = {a, a}; tv(v.c); return v.x; }' % (t, u), [(v,) for v in VALS[u]], tag='local-struct-conv')
    for e in ['A@', 'B@', 'C@', '(char)B@', 'A@ + 1', 'sizeof(int)', 'sizeof(long[3])', 'sizeof "abc"', 'sizeof(struct S@)', '(B@)', 'C@ * 2', '-B@', '1 ? B@ : A@']:
        for t in TYPES:
            yield Unit('enum E@ { A@, B@ = 300, C@ };\nstruct S@ { char a; int b; };\n%s v@ = %s;\nlong f@(void) { return v@; }' % (t, e), opt=True, tag='global-enum')
            yield Unit('enum E@ { A@, B@ = 300, C@ };\nstruct S@ { char a; int b; };\nlong f@(void) { %s v = %s; return v; }' % (t, e), tag='local-enum')


def part_string(tier):
    """char arrays from string literals: every length against every size; every byte"""
    top = 20
    for n in range(1, top):
        for k in range(0, n + 1):
            s = ''.join(chr(97 + i % 26) for i in range(k))
            for form in ['"%s"', '{"%s"}']:
                yield Unit('char v@[%d] = %s; char y@ = 7;\nint f@(void) { int i; for (i = 0; i < %d; i++) tv(v@[i]); return y@; }' % (n, form % s, n), tag='gstr', opt='{' in form)
                yield Unit('int f@(void) { char x = 5; char v[%d] = %s; char y = 7; int i; for (i = 0; i < %d; i++) tv(v[i]); return x * 10 + y; }' % (n, form % s, n),
                           tag='lstr', opt='{' in form)
    for c in range(1, 256):
        for fmt in ['\\x%x', '\\%03o', '\\%o']:
            s = fmt % c
            yield Unit('char v@[5] = "A%s"; char *g@(void) { return "%sB"; }\nint f@(void) { char w[4] = "%s%s"; char *p = "q%s"; int i; for (i = 0; i < 5; i++) tv(v@[i]); '
                       'for (i = 0; i < 4; i++) tv(w[i]); tv(p[1]); tv(p[2]); return 0; }' % (s, s if fmt != '\\x%x' else s + 'g', s, s, s), tag='escape')
        if 32 <= c < 127 and chr(c) not in '"\\':
            yield Unit('char v@[4] = "%s"; int f@(void) { char w[3] = "%s%s"; tv(v@[0]); tv(v@[1]); tv(w[0]); tv(w[1]); tv(w[2]); return "%s"[0]; }' % ((chr(c) * 1,) * 4 if chr(c) != '@' else ('\\x40',) * 4), tag='printable')
    for e in ['\\n', '\\t', '\\r', '\\a', '\\b', '\\f', '\\v', "\\'", '\\"', '\\\\', '\\?', '\\0', '\\00', '\\000', '\\0001', '\\1234', '\\x41g', '\\x7f.']:
        yield Unit('char v@[8] = "a%sb"; int f@(void) { char w[6] = "%s"; char *p = "1%s2"; int i; for (i = 0; i < 8; i++) tv(v@[i]); for (i = 0; i < 6; i++) tv(w[i]); '
                   'for (i = 0; i < 4; i++) tv(p[i]); return sizeof "%s"; }' % (e, e, e if e[-1] not in '0123456' else '1' + e, e), tag='escape-simple')
    # long strings: word, page and buffer boundaries
    for n in list(range(1, 40)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097]:
        s = ''.join(chr(33 + (i * 7) % 90).replace('"', 'q').replace('\\', 'b').replace('@', 'k') for i in range(n))
        ck = 'long h = 0; for (i = 0; i < %d; i++) h = h * 31 %% 1000003 + ' % n
        yield Unit('char v@[%d] = "%s";\nlong f@(void) { int i; %s v@[i]; return h; }' % (n + 1, s, ck), tag='glong')
        yield Unit('long f@(void) { int i; char *p = "%s"; %s p[i]; return h + p[%d]; }' % (s, ck, n), tag='plong')
        if n <= 1025:
            yield Unit('long f@(void) { int i; char v[%d] = "%s"; %s v[i]; return h + v[%d] * 3; }' % (n + 3, s, ck, n + 2), tag='llong')


def part_order(tier):
    """initializer expressions see earlier variables and have their effects once"""
    for b in ['int x = a; int y = x + 1; int z[3] = {x, y, x * y}; return z[0] + z[1] * 10 + z[2] * 100;',
              'int x = a, y = x, *p = &y, q[2] = {*p, x}; *p = 9; return q[0] * 100 + q[1] * 10 + y;',
              'int m[3] = {ti(a)}; return m[0] + m[1];', 'struct S@ s = {a, a + 1}; struct S@ *p = &s; int k = p->y; return k * 10 + s.x;',
              'char *p = "abc"; char *q[2] = {p, p + 1}; return q[1][0] * 256 + *q[0];', 'int x = 1; { int x = 2; int y = x; tv(y); } return x;',
              'int i = 0; int m[3] = {5, 6, 7}; int s = m[i] + m[2]; return s;', 'int (*p)(int) = ti; int r = p(a); return r;',
              'int x = a; int y = x++; int z = ++x; return x * 100 + y * 10 + z;', 'int n = sizeof(n); return n;', 'int m[2][2] = {{a, 1}, {2, a}}; int *p = m[1]; return p[1] * 10 + *m[0];',
              'long l = a; unsigned int u = l; char c = u; int i = c; return i;', 'int x = a ? 3 : 4, y = x && a; return x * 10 + y;',
              'int m[4] = {a, a + 1, a + 2}; int *p = m + 1; int *e = m + 4; int s = 0; for (; p != e; p++) s = s * 10 + *p; return s;']:
        yield Unit('struct S@ { int x; int y; };\nint f@(int a) { %s }' % b, [(0,), (1,), (4,)], tag='order')
    for b in ['int a@ = 1, b@ = 2, c@[2] = {3, 4}, *d@;', 'char a@ = 1, b@ = 2; int c@[2] = {3, 4}; int *d@;', 'long b@ = 2; long a@ = 1; long c@[3] = {3, 4}; int *d@;',
              'struct P@ { int x; } q@ = {6}, r@[2] = {{7}, {8}}; int a@ = 1, b@ = 2, c@[2] = {3, 4}; int *d@;']:
        yield Unit(b + '\nint f@(void) { tv(a@); tv(b@); tv(c@[0]); tv(c@[1]); a@ = 9; tv(b@); return d@ ? 1 : 0; }', tag='global-list')


def part_scale(tier):
    for n in list(range(1, 50)) + [63, 64, 65, 100, 128, 200, 256, 300]:
        for t in ['char', 'int', 'long']:
            vals = ', '.join(str((i * 37 + 5) % 120) for i in range(n))
            ck = 'long h = 0; int i; for (i = 0; i < %d; i++) h = h * 31 %% 1000003 + v[i];' % (n + 2)
            yield Unit('%s v@[%d] = {%s};\nlong f@(void) { %s return h; }' % (t, n + 2, vals, ck.replace('v[', 'v@[')), tag='gmany')
            yield Unit('long f@(void) { %s v[%d] = {%s}; %s return h; }' % (t, n + 2, vals, ck), tag='lmany')
            if n <= 64:
                yield Unit('long f@(void) { %s v[%d] = {1}; %s return h; }' % (t, n + 2, ck), tag='lzero')
                yield Unit('%s v@[%d] = {1}; %s w@[%d];\nlong f@(void) { %s return h + w@[%d]; }' % (t, n + 2, t, n, ck.replace('v[', 'v@['), n - 1), tag='gzero')
                yield Unit('struct S@ { %s };\nstruct S@ g@ = {%s}; long f@(void) { struct S@ s = {%s}; return s.m%d * 1000 + s.m0 + g@.m%d; }' % (
                    ' '.join('%s m%d;' % (t if i % 2 else 'char', i) for i in range(n + 1)), vals, vals, n - 1, n - 1), tag='smany')


def items(sh, depth=0):
    """(item list, complete) for an aggregate entered without braces or inside braces: every way to write each part (scalar; list in
    braces; a string for characters; the items of the part itself, without braces), and every point to stop"""
    subs = [sh[2]] * sh[1] if sh[0] == 'arr' else sh[1]

    def go(k):
        if k == len(subs):
            yield [], True
            return
        for it, full in part(subs[k], depth):
            if it and full:
                for rest, c in go(k + 1):
                    yield it + rest, c
                yield it, k + 1 == len(subs)
            elif it:
                yield it, False
    seen = set()
    for it, c in go(0):
        if it and (tuple(it), c) not in seen:
            seen.add((tuple(it), c))
            yield it, c


def part(sh, depth):
    if isinstance(sh, str):
        yield ['#'], True
        return
    chars = sh[0] == 'arr' and sh[2] == 'char'
    if chars:
        for k in sorted({0, 1, sh[1] - 1, sh[1]} - {-1}):
            yield ['"%s"' % 'pqrstuvwxyzabcdefghijk'[:k]], True
        yield ['{"%s"}' % 'lmnopqrstuvwxyzabcdefg'[:sh[1]]], True
    lim = 3 if chars else 40 if depth == 0 else 6
    for it, c in itertools.islice(items(sh, depth + 1), lim):
        yield ['{' + ', '.join(it) + '}'], True
    for it, c in itertools.islice(items(sh, depth + 1), lim):
        if it[0][0] != '{':  # braces would enclose the whole of this part
            yield it, c


def eshapes():
    out = [('arr', 2, ('arr', 3, 'char')), ('arr', 3, ('arr', 2, 'int')), ('arr', 2, ('arr', 5, 'char')), ('arr', 2, ('arr', 2, ('arr', 2, 'char'))), ('arr', 2, ('arr', 2, ('arr', 2, 'long')))]
    for t in ('char', 'int', 'long'):
        for n in (1, 2, 3, 5, 7):
            a = ('arr', n, 'char')
            out += [('struct', [t, a]), ('struct', [a, t]), ('struct', [t, a, 'char']), ('arr', 2, ('struct', [t, a]))]
        for u in ('char', 'int', 'long'):
            st = ('struct', [t, u])
            out += [('arr', 2, st), ('struct', [st, t]), ('struct', [u, st, u]), ('struct', [st, st]), ('struct', [('arr', 2, st), u]), ('struct', [('arr', 2, t), ('arr', 2, u)]),
                    ('arr', 2, ('struct', [('arr', 2, u), t])), ('struct', [('struct', [t]), ('struct', [('arr', 2, u), t])])]
    for n in (2, 3, 6):
        a = ('arr', n, 'char')
        out += [('struct', [a, a]), ('struct', ['char', a, a, 'int']), ('struct', [('struct', ['char', a]), ('struct', [a, 'char'])]), ('arr', 2, ('struct', ['char', a, 'char'])),
                ('struct', [('arr', 2, a), 'char']), ('struct', ['char', ('arr', 2, a)]), ('arr', 2, ('arr', 2, a)), ('arr', 3, ('struct', [a]))]
    return out


G3 = 'char x[8] = {1, 2, 3, 4, 5, 6, 7, 8};'
RG = 'for (i = 0; i < 8; i++) { tv(x[i]); tv(y[i]); }'


def part_elided(tier):
    """inner braces left out, and strings inside lists, in every position: what each item initialises; neighbours keep their values"""
    import re
    cap = 70 if tier != 'thorough' else 1000
    for sh in eshapes():
        alls = [it for it, c in itertools.islice(items(sh), 6000)]
        step = max(1, -(-len(alls) // cap))
        for k, it in enumerate(alls[::step]):
            ini = '{' + ', '.join(it) + '}'
            b = B()
            d = b.decl(sh, 'v')
            reads = ' '.join('tvl(v%s);' % acc for acc, t in leaves(sh))
            gi = number(ini, GV[k % len(GV):] + GV[:k % len(GV)])
            li = number(ini, LV[k % len(LV):] + LV[:k % len(LV)])
            yield Unit(b.pre + 'int g@(int x) { return x + 9; }\nint f@(int a, long b) { int i; %s %s = %s; %s %s %s return 0; }' % (
                G3, d, li, G3.replace('x[', 'y['), reads, RG), [(3, 5)], tag='elided-local')
            yield Unit(b.pre + G3.replace('x[', 'x@[') + re.sub(r'\bv\b', 'v@', d) + ' = %s; %s\nint f@(void) { int i; %s %s return 0; }' % (
                gi, G3.replace('x[', 'y@['), reads.replace('(v', '(v@'), RG.replace('[', '@[')), tag='elided-global')


def excess():
    """lists with one item too many, at the end of the outer list and of an inner one"""
    for sh in eshapes() + shapes():
        if isinstance(sh, str):
            continue
        alls = [x for x, c in itertools.islice(items(sh), 400) if c]
        for it in alls[:3] + alls[-2:]:
            for x in ('1', '{1}', '"a"', '{}', ','):
                for place in (0, 1, 2):
                    b = B()
                    d = b.decl(sh, 'v')
                    if place == 2:
                        if it[0][-1] != '}':
                            continue
                        ini = number('{%s, %s}%s' % (it[0][:-1], x, ''.join(', ' + i for i in it[1:])), GV)
                    else:
                        ini = number('{%s, %s}' % (', '.join(it), x), GV)
                    src = b.pre + (d + ' = %s; int f(void) { return 0; }' if place != 1 else 'int f(void) { ' + d + ' = %s; return 0; }') % ini
                    yield src.replace('@', ''), 'excess'


def part_placed(tier):
    """strings of every length at every offset of a local or global object, between other objects"""
    for pre in range(0, 9):
        for n in range(1, 18):
            for k in sorted({0, 1, n // 2, n - 1, n} - {-1}):
                for post in ('', ' char z[2];', ' char z;') if k >= n - 1 else ('',):
                    s = 'abcdefghijklmnopqrstu'[:k]
                    st = 'struct S@ { %schar s[%d];%s };\n' % ('char p[%d]; ' % pre if pre else '', n, post)
                    for q in ('"%s"', '{"%s"}'):
                        ini = '{%s%s}' % ('{8, 9}, ' if pre > 1 else '{8}, ' if pre else '', q % s)
                        yield Unit(st + 'int f@(void) { int i; %s struct S@ v = %s; %s %s for (i = 0; i < sizeof v; i++) tv(((char *)&v)[i]); return 0; }' % (
                            G3, ini, G3.replace('x[', 'y['), RG), tag='placed-local')
                    yield Unit(st + 'int f@(void) { int i; %s struct S@ v[2] = {%s, %s}; %s %s for (i = 0; i < sizeof v; i++) tv(((char *)v)[i]); return 0; }' % (
                        G3, ini, ini, G3.replace('x[', 'y['), RG), tag='placed-array')
                    if post == '':
                        yield Unit(st + '%s struct S@ v@[2] = {%s, %s}; %s\nint f@(void) { int i; %s for (i = 0; i < sizeof v@; i++) tv(((char *)v@)[i]); return 0; }' % (
                            G3.replace('x[', 'x@['), ini, ini, G3.replace('x[', 'y@['), RG.replace('[', '@[').replace('x@', 'x@')), tag='placed-global')



def part_members(tier):
    """arrays of structures of up to fifteen members, ended by a member of each size, and structures followed by other members"""
    T = ['char', 'int', 'long', 'char *', 'char[3]', 'int[2]']

    def member(t, m):
        if t.endswith(']'):
            return '%s %s%s;' % (t[:t.index('[')], m, t[t.index('['):])
        return '%s %s;' % (t, m)
    bytes_ = '%s for (i = 0; i < %d; i++) tv(%s);'
    for n in range(1, 16 if tier == 'thorough' else 13):
        for first, mid, last in itertools.product(T[:3], T[:3] if n > 2 else ['int'], T):
            ms = ([first] if n > 1 else []) + [mid] * (n - 2) + [last]
            st = 'struct S@ { %s };\n' % ' '.join(member(t, 'm%d' % i) for i, t in enumerate(ms))
            val = lambda k: '{%s}' % ', '.join('{%d, %d}' % (k + i, i + 1) if t.endswith(']') else '0' if t == 'char *' else str(k + i) for i, t in enumerate(ms))
            val2 = lambda k: '{%s}' % ', '.join(['{%d, %d}' % (k + i, i + 1) if t.endswith(']') else '0' if t == 'char *' else str(k + i) for i, t in enumerate(ms)][:n // 2 + 1])
            reads = lambda x: ' '.join('tv((int)%s.m%d%s);' % (x, i, '[1]' if t.endswith(']') else '') if t != 'char *' else 'tv(%s.m%d == w);' % (x, i) for i, t in enumerate(ms))
            w = 'int i; char *w; long w0 = 0; w = (char *)w0;'
            if 'char *' in ms:
                val3, val4 = [lambda k, v=v: v(k).replace(' 0', ' ""').replace('{0', '{""') for v in (val, val2)]
                reads3 = lambda x: reads(x).replace('== w', '!= w')
            else:
                val3, val4, reads3 = val, val2, reads
            for d in (1, 2, 3):
                rs = ' '.join(reads3('v[%d]' % j) for j in range(d))
                yield Unit(st + 'int f@(void) { %s int a = 77; struct S@ v[%d] = {%s}; int b = 78; tv(a); tv(b); %s return sizeof v; }' % (w, d, ', '.join(val3(40 + 20 * j) for j in range(d)), rs), tag='members-local')
                if 'char *' not in ms:
                    rs2 = ' '.join(reads('v[%d]' % j) for j in range(d))
                    yield Unit(st + 'int f@(void) { %s int a = 77; struct S@ v[%d] = {%s}; int b = 78; tv(a); tv(b); %s return sizeof v; }' % (w, d, ', '.join(val2(40 + 20 * j) for j in range(d)), rs2), tag='members-partial')
                    yield Unit(st + 'struct S@ v@[%d] = {%s};\nint z@ = 9;\nint f@(void) { %s tv(z@); %s return sizeof v@; }' % (d, ', '.join((val2 if j % 2 else val)(40 + 20 * j) for j in range(d)), w, rs2.replace('v[', 'v@[')), tag='members-global')
            if 'char *' not in ms:
                yield Unit(st + 'struct T@ { char p; struct S@ x[2]; char q; struct S@ y; char r; };\nint f@(void) { %s struct T@ v = {5, {%s, %s}, 6, %s, 7}; tv(v.p); tv(v.q); tv(v.r); %s %s %s return sizeof v; }' % (
                    w, val(40), val2(60), val(80), reads('v.x[0]'), reads('v.x[1]'), reads('v.y')), tag='members-nested')


def part_many(tier):
    """lists of many strings; elements and members left out of a list, on a stack other calls have used: zero"""
    word = lambda i, n: chr(97 + i % 26) * (i % (n + 1))
    for n in list(range(1, 41)) + [63, 64, 65, 66, 100, 127, 128, 129, 130, 256, 257]:
        for w in (2, 4, 5, 8, 9) if n <= 66 else (4,):
            l = ', '.join(('{"%s"}' if i % 7 == 6 else '"%s"') % word(i, w) for i in range(n))
            ck = 'for (i = 0; i < sizeof v; i++) h = h * 31 %% 1000003 + ((char *)%s)[i]; return h;'
            yield Unit('long f@(void) { int i; long h = 0; char v[%d][%d] = {%s}; %s }' % (n, w, l, ck % 'v'), tag='strings-local')
            yield Unit('char v@[%d][%d] = {%s}; char x@ = 5;\nlong f@(void) { int i; long h = x@; %s }' % (n, w, l, (ck % 'v').replace('v', 'v@', 1).replace(')v)', ')v@)')), tag='strings-global')
            if n <= 40 and w in (4, 9):
                st = 'struct S@ { %s };\n' % ' '.join('char m%d[%d];' % (i, w) if i % 3 != 1 else 'int m%d;' % i for i in range(n))
                l = ', '.join('"%s"' % word(i, w) if i % 3 != 1 else str(i) for i in range(n))
                rd = ' '.join('tv(V.m%d[%d]); tv(V.m%d[%d]);' % (i, 0, i, w - 1) if i % 3 != 1 else 'tv(V.m%d);' % i for i in range(n))
                yield Unit(st + 'int f@(void) { struct S@ v = {%s}; %s return 0; }' % (l, rd.replace('V', 'v')), tag='members-strings')
                yield Unit(st + 'struct S@ v@ = {%s};\nint f@(void) { %s return 0; }' % (l, rd.replace('V', 'v@')), tag='members-strings')
                l = ', '.join('"%s"' % word(i, w) for i in range(n))
                yield Unit('int f@(void) { int i; char *v[%d] = {%s}; for (i = 0; i < %d; i++) { tv(v[i][0]); } return 0; }' % (n, l, n), tag='pointers-strings')
    dirty = 'int d@(int n) { long w[200]; int i; for (i = 0; i < 200; i++) w[i] = -1 - n; return (int)w[n]; }\n'
    T = ['char', 'int', 'long', 'char[3]', 'int[2]', 'struct Q@']
    pre = dirty + 'struct Q@ { char a; int b; };\n'
    dec = lambda t, m: '%s %s%s;' % (t.partition('[')[0], m, ''.join(t.partition('[')[1:]))
    one = lambda t, k: '{%d, %d}' % (k, k + 1) if t[-1] == ']' or t[0] == 's' else str(k)
    for n in range(1, 20 if tier == 'thorough' else 17):
        for t, u in itertools.product(T, repeat=2):
            ts = [(t, u)[i % 2] for i in range(n)]
            st = pre + 'struct S@ { %s };\n' % ' '.join(dec(x, 'm%d' % i) for i, x in enumerate(ts))
            rd = lambda v: ' '.join('tv((int)%s.m%d);' % (v, i) if x in T[:3] else ' '.join('tv(%s.m%d[%d]);' % (v, i, j) for j in range(int(x[-2]))) if x[-1] == ']' else
                                    'tv(%s.m%d.a); tv(%s.m%d.b);' % (v, i, v, i) for i, x in enumerate(ts))
            full = '{' + ', '.join(one(x, i + 3) for i, x in enumerate(ts)) + '}'
            for ini in ['{{%s}}' % one(ts[0], 9), '{%s}' % full, '{%s, {%s}}' % (full, one(ts[0], 8)), '{%s}' % one(ts[0], 7)]:
                yield Unit(st + 'int g@(void) { struct S@ v[3] = %s; %s return 0; }\nint f@(void) { d@(3); return g@(); }' % (ini, ' '.join(rd('v[%d]' % j) for j in range(3))), tag='left-out')
            yield Unit(st + 'struct O@ { char c; struct S@ s; char e; struct S@ u; };\nint g@(void) { struct O@ v = {5, {%s}}; tv(v.c); tv(v.e); %s %s return 0; }\nint f@(void) { d@(3); return g@(); }' % (
                one(ts[0], 9), rd('v.s'), rd('v.u')), tag='left-out-nested')
            yield Unit(st + 'struct O@ { char c; struct S@ s; char e; struct S@ u; };\nint g@(void) { struct O@ v[2] = {{5}}; tv(v[0].c); tv(v[1].e); %s %s %s return 0; }\nint f@(void) { d@(3); return g@(); }' % (
                rd('v[0].s'), rd('v[0].u'), rd('v[1].s')), tag='left-out-nested')
            yield Unit(st + 'int g@(int k) { struct S@ w = %s; tv(k); { struct S@ v = {%s}; %s %s } return 0; }\nint f@(void) { d@(3); g@(1); d@(9); return g@(2); }' % (
                full, one(ts[0], 6), rd('w'), rd('v')), tag='left-out-block')
    for dims in [(2, 2), (3, 4), (2, 3, 4), (9,), (17,), (33,), (64,), (65,), (9, 9), (7, 8), (2, 2, 2, 2), (3, 3, 7), (17, 2), (2, 17)]:
        for t in ('char', 'int', 'long'):
            for ini in ['{1}', '{{1}}', '{1, 2}', '{{1}, {2}}', '{{1, 2}}', '{{1}, 2}', '{{{1}}, {{2}}}', '{{{1}, {2}}}']:
                if ini.count('{{{') > len(dims) - 2 or ('{' in ini[1:] and len(dims) == 1):
                    continue
                tot = 1
                for x in dims:
                    tot *= x
                ds = ''.join('[%d]' % x for x in dims)
                for zz in range(2):
                    yield Unit(dirty + 'int g@(void) { %s v%s = %s; int i; for (i = 0; i < %d; i++) tv((int)((%s *)v)[i]); return 0; }\nint f@(void) { d@(3); return g@(); }' % (t, ds, ini, tot, t)
                               if zz else '%s v@%s = %s; %s w@ = 5;\nint f@(void) { int i; for (i = 0; i < %d; i++) tv((int)((%s *)v@)[i]); return (int)w@; }' % (t, ds, ini, t, tot, t), tag='left-out-array')


PARTS = [('many', part_many), ('members', part_members), ('shapes', part_shapes), ('zero', part_zero), ('scalars', part_scalar), ('strings', part_string), ('elided', part_elided), ('placed', part_placed), ('order', part_order), ('scale', part_scale)]
