"""Composition: constructs keep their meaning next to, inside and after each other, in programs of any number of functions, names and files."""
import os
import re
import itertools
import struct
import harness
from harness import *
from gen import *

PRE = '''struct S@ { char c; int i; long l; struct S@ *n; int v[3]; };
enum E@ { A@, B@ = 5, C@ };
typedef unsigned long W@;
int ga@ = 3; char gc@ = 'a'; long gl@ = 9l; unsigned int gu@ = 7u; int gv@[4] = {1, 2, 3, 4}; struct S@ gs@; char *gt@ = "glob";
int add@(int x, int y) { return x + y * 3; }
long mix@(char c, int i, long l, unsigned int u, int *p, int x7, long x8, char x9) { return c + i * 2l + l * 3l + u + *p + x7 * 5l + x8 * 7l + x9; }
void bump@(int *p) { *p = *p + 1; ga@ = ga@ + *p; }
int rec@(int n) { if (n <= 0) return ga@; return n + rec@(n - 1); }
int len@(char *s) { int n = 0; while (*s++) n++; return n; }
int sum@(struct S@ *s) { int r = 0; while (s) { r = r + s->i; s = s->n; } return r; }
'''.replace('char *gt@ = "glob";', '')
SETUP = '''int x = a; int y = b; char c = 'k'; long l = a * 1000l; unsigned int u = 40u; W@ w = 5ul; int v[4] = {4, 3, 2, 1}; int m[2][3] = {{1, 2, 3}, {4, 5, 6}};
  int *p = &v[1]; struct S@ s; struct S@ *q = &s; char t[6] = "hello"; enum E@ e = B@; int (*fp)(int, int) = add@;
  s.c = 1; s.i = a; s.l = 77l; s.n = 0; s.v[0] = 10; s.v[1] = 11; s.v[2] = 12; gs@.i = b; gs@.n = q; gs@.c = 'z'; gs@.l = 1l; gs@.v[0] = 0; gs@.v[1] = 1; gs@.v[2] = 2;'''
SETUP = SETUP.replace('s.n = 0;', '').replace('gs@.n = q;', '')
FIN = '''unsigned long h = 17ul;
  h = h * 31 + x; h = h * 31 + y; h = h * 31 + c; h = h * 31 + l; h = h * 31 + u; h = h * 31 + w; h = h * 31 + e; h = h * 31 + (p - v);
  for (int z = 0; z < 4; z++) { h = h * 31 + v[z]; h = h * 31 + gv@[z]; }
  for (int z = 0; z < 6; z++) { h = h * 31 + t[z]; h = h * 31 + m[z / 3][z % 3]; }
  h = h * 31 + s.c; h = h * 31 + s.i; h = h * 31 + s.l; h = h * 31 + s.v[0] + s.v[1] * 3 + s.v[2] * 5; h = h * 31 + gs@.i + gs@.c + gs@.l;
  h = h * 31 + ga@; h = h * 31 + gc@; h = h * 31 + gl@; h = h * 31 + gu@;
  return h;'''
CORE = [  # one fragment per construct
    'x = x + y;', 'y = x * 3 - y;', 'l = l / 3 + x;', 'u = u - 50u;', 'c = c + 100;', 'w = w << 3;', 'x = x >> 1;', 'x = -x;', 'y = ~y;', 'x = !x;', 'x++;', '--y;', 'c--;', 'x = y++;', 'l += x;', 'u %= 7;', 'w *= 3ul;', 'c ^= 5;', 'x <<= 2;',
    'x = l;', 'c = x;', 'l = c;', 'w = x;', 'u = l;', 'x = u > 5;', 'x = l < w;', 'y = x && y;', 'x = !x || c;', 'x = x ? y : c;', 'l = x < y ? l : w;', 'v[0] = x;', 'v[x & 3] = y;', '*p = 9;', 'p[1] = x;', 'p++;', 'p = &v[0];', 'p = v + 2;', 'x = p[0] + *(p + 1);', 'm[1][2] = x;', 'x = m[x & 1][1];',
    's.i = y;', 'q->l = x;', 's.c = s.c + s.i;', 'q->v[1] = x;', 'q = &gs@;', 'q->i++;', 'x = sizeof(s);', 't[1] = 65;', 'x = t[0];', 'x = "abc"[1];', 'x = len@("four");', 'x = len@(t);', 'ga@ = x;', 'gc@ = gc@ + 1;', 'gl@ -= x;', 'gu@ = u;', 'gv@[2] = y;', 'gv@[x & 3]++;', 'gs@.l = l;',
    'x = add@(x, y);', 'l = mix@(c, x, l, u, p, y, 8l, c);', 'bump@(&x);', 'bump@(p);', 'x = rec@(3);', 'x = fp(y, 2);', 'x = add@(add@(x, 1), rec@(y & 3));', 'e = C@;', 'x = e + A@;', 'tv(x);', 'x = ti(y);', 'ts(t);', 'x = (char)x;', 'l = (unsigned int)x;', 'x = (int)l * 2;',
    'if (x > y) x = 1; else y = 2;', 'if (x) if (y) x = 3; else x = 4;', 'while (x > 10) x = x - 7;', 'for (int k = 0; k < 3; k++) y = y + k;', 'switch (x & 3) { case 0: y = 1; break; case 1: y = 2; default: y = y + 3; }', '{ int x = 8; y = y + x; }', ';', '{ }', 'for (int k = 0; ; k++) { if (k == 2) continue; if (k > 4) break; x = x + k; }',
    'x = (y = 4) + 1;', 'x = x + (x & y) * (x ^ y) - (x | 3);', 'l = (x + y) * (l - (c + u));', 'x = m[m[0][0]][v[3]];', 'x = *&y;', 'x = (&v[2] - p) == 1;', 'x = v == p;', 'x = s.v[2] - q->v[0];', 'x = (x, y);'][:-1]
CORE += [
    'switch (l) { case 5000000000: y = 1; x = x * 2 + y; v[1] = x - y; break; case 3000l: x = add@(x, y) + v[0]; default: y = y + 3; x = x - y * 2; }', 'switch (u) { case 40: x = x * 2; y = x + 1; v[2] = y; break; case 3000000000: x = 2; y = add@(x, 1) - x; }',
    'switch (w) { case 5: x = 1; y = y + x * v[1]; case 6: y = y - x; break; case 1099511627776: x = add@(y, x); }', "switch (c) { case 'k': x = x + 2; break; case 'l': y = 1; default: y = 2; }", 'switch (e) { case A@: x = 1; case B@: x = x + 2; }',
    'l = 5000000000 - x;', 'u = 4000000000u;', 'w = w + 18446744073709551615ul;', 'x = l == 5000000000;', 'x = u < 3000000000;', "x = '\\n' + '\\x41' + '\\0';", 'x = 0x10 + 017 - 5;', 'l = -l % 7l;', 'w = w / 3ul + w % 5ul;', 'u = u >> 3 | u << 29;', 'l = l >> 3 ^ l << 5;', 'x = ~x & 255 | y ^ 15;', 'x = (char)l + (int)w;', 'c += x;', 'c = -c;', 'c <<= 1;',
    '{ int k[3] = {x, y}; x = k[0] + k[2]; }', '{ char k[7] = "ab"; char z[3] = "xy"; x = k[1] + z[1] + k[6]; }', '{ struct S@ k = {1, x, l}; x = k.i + k.v[2]; }', '{ struct { char a[3]; char b; } k = {"ab", 7}; x = k.b + k.a[1]; }', '{ char k[2][3] = {"ab", "cd"}; x = k[1][0]; }', '{ int k[2][2] = {1, x, 3}; x = k[1][0] + k[0][1] + k[1][1]; }',
    '{ int k = x; int z = k + y; x = z; }', '{ int **k = &p; **k = 5; *k = v; }', '{ int (*k)[3] = m; x = k[1][2] + (*k)[0]; }', '{ int (*k[2])(int, int); k[0] = fp; k[1] = add@; x = k[x & 1](y, 1); }', 'q->n = &gs@; x = q->n->i;', '{ struct { struct S@ a; int b; } k; k.a.i = x; k.a.v[1] = y; k.b = 2; x = k.a.v[1] * k.b + k.a.i; }', '{ struct S@ k[2]; k[1].i = x; k[0].v[2] = y; q = k + 1; x = q->i * 2 + k[0].v[2]; q = &s; }',
    's.v[x & 1] += y;', 'm[1][x & 1] -= 3;', 'gs@.v[2]++;', '(*p)++;', 'x = *p++; p = v;', 'x = ++*p;', 'x = p[0]-- - 1;', 'p = &m[1][1]; *p = 3; p = v;', 'x = &m[1][0] == m[1];', 'l = *p * l;', '{ typedef long T; T k = x; y = k * 2l; }', '{ enum { Z = 7 } k = Z; x = x + Z + k; }', '{ struct S@ { char q[5]; }; x = sizeof(struct S@); }', '{ long k = 3l, *z = &k; *z = *z + x; y = k; }',
    'x = x ? y ? 1 : 2 : c ? 3 : 4;', 'x = add@(x ? y : c, x && y);', 'x = (x > y) + (l > x) * 2 + (u != w);', 'x = sizeof(int *) + sizeof v + sizeof(m[0]);', 'for (int i = 0, j = 3; i < j; i++) x = x + i;', '{ int n = 0; while (n < 3 && y > x) { x++; n++; } }', 'for (; x > 90; ) x = x - 3;', 'if (x == y) ; else { x = 7; }', 'while (1) { x++; if (x & 3) continue; break; }', 'if (x == 6) return 12ul;', 'tvl(l);',
    'x = mix@(c, x, l, u, p, add@(1, 2), rec@(2), c) + mix@(1, 2, 3l, 4u, &y, 5, 6l, 7);', 'ga@ = ga@ + add@(ga@, gv@[1]);', 'x = *"abc" + "a\\0b"[2];', 'x = len@("") + len@("a\\0b");', 'x = (x < y) == (y < x);', 'x = fp(fp(x, y), fp(1, 2));', 'x = !(l - l) + !p[0];', 'y = x % 5 * (y / 2) + (x << 1 >> 2);', '(void)x;', 'gs@.c = gs@.c * 3;', 'x = (y += 2) * (c -= 1);']
WRAP = [
    'if (x > y) { %s }', 'if (x > y) x = x + 1; else { %s }', 'if (c && y) { %s } else { y = 1; }', '{ int k = 0; while (k < 2) { %s k++; } }', 'for (int k = 0; k < 2; k++) { %s }', 'for (int k = 0; k < 3; k++) { if (k == 1) continue; %s }', 'for (;;) { %s break; }',
    'switch (y & 3) { case 0: x = 1; case 1: { %s } break; case 2: y = 7; default: { %s } }', '{ int x = 5; %s ga@ = ga@ + x; }', '{ int v[2]; long l = 4l; v[0] = 6; v[1] = x; { %s } x = v[0]; }', 'if (!x || y) { { { %s } } }', '{ struct S@ s; s.i = 1; s.c = 2; s.l = 3l; s.v[0] = 4; s.v[1] = 5; s.v[2] = 6; %s y = y + s.i; }',
    'while (x) { %s if (ga@ > 3) break; x = 0; }', 'switch (x) { default: { %s } }', 'switch (l) { case 5000000000: x = 1; default: { %s } }', 'switch (u) { case 3000000000: y = 0; case 40: { %s } break; }', '{ int n = 0; while (n < 2 && (x || !y)) { n++; %s } }',
    'if (x > y || l > 3l && u) { %s }', '{ struct S@ s = {1, 2, 3l}; char k[6] = "abcde"; %s y = y + s.i + k[4]; }']
CASES = [(3, 5), (-7, 0), (100, -2)]


def fn(body):
    pre = ''.join(x + '\n' for x in PRE.split('\n') if '(' not in x or re.search(r'\b%s@' % re.match(r'(?:[a-z]+ )+(\w+)@', x).group(1), body + SETUP))
    return pre + 'unsigned long f@(int a, int b) { ' + SETUP + '\n  ' + body + '\n  ' + FIN + ' }'


def wrap(w, body):
    return w.replace('%s', body)


def part_pairs(tier):
    """every construct alone, after every other, and twice"""
    for a in CORE:
        yield Unit(fn(a), CASES, tag='one')
    for a, b in itertools.product(CORE, repeat=2):
        yield Unit(fn(a + ' ' + b), CASES, tag='pair')


def part_nested(tier):
    """every construct in every statement context, in two contexts, and before and after one"""
    for w, a in itertools.product(WRAP, CORE):
        yield Unit(fn(wrap(w, a)), CASES, tag='in')
    for (i1, w1), (i2, w2), (k, a) in itertools.product(enumerate(WRAP), enumerate(WRAP), enumerate(CORE)):
        if tier != 'thorough' and (i1 + i2 + k) % 3:
            continue
        yield Unit(fn(wrap(w1, wrap(w2, a))), CASES[:2] if tier == 'thorough' else CASES[:1], tag='in in')
    sel = CORE[::7] if tier == 'thorough' else CORE[::15]
    for w, a, b in itertools.product(WRAP, CORE, sel):
        yield Unit(fn(wrap(w, a) + ' ' + b), CASES[:1], tag='in, after')
        yield Unit(fn(wrap(w, b + ' ' + a)), CASES[:1], tag='in, second')


def part_deep(tier):
    """thorough: triples of constructs; three contexts"""
    for a, b, c in itertools.product(CORE, CORE, CORE[::5]):
        yield Unit(fn(a + ' ' + b + ' ' + c), CASES[:1], tag='triple')
    for w1, w2, w3 in itertools.product(WRAP, repeat=3):
        for a in CORE[::9]:
            yield Unit(fn(wrap(w1, wrap(w2, wrap(w3, a)))), CASES[:1], tag='in in in')
    for w, a, b in itertools.product(WRAP, CORE, CORE):
        yield Unit(fn(wrap(w, a + ' ' + b)), CASES[:1], tag='in pair')


LIBF = '''int g@;
struct P@ { int x; int y; };
int l0_@(int x) { return x + 1; }
int l1_@(int x) { if (x <= 1) return 1; return l0_@(x - 2) + x; }
int l2_@(int x) { int r = 0; while (x > 0) { r = r + x; x = x - 2; } return r; }
int l3_@(int x) { int v[3]; v[0] = x; v[1] = l0_@(x); v[2] = v[0] - v[1]; return v[0] + v[1] * 2 + v[2]; }
int l4_@(int x) { g@ = g@ + x; return g@; }
int l5_@(int x) { struct P@ p; struct P@ *q = &p; p.x = x; q->y = l3_@(x); return q->x * 2 - p.y; }
int l6_@(int x) { switch (x & 3) { case 0: return 5; case 1: x = x + 7; case 2: return x; } return -x; }
int l7_@(int x) { char c = x; return c; }
int in8_@(int *p, int n) { int r = 0; for (int i = 0; i < n; i++) { r = r * 2 + p[i]; p[i] = i; } return r + p[n - 1]; }
int l8_@(int x) { int v[4]; for (int i = 0; i < 4; i++) v[i] = x - i; return in8_@(v, 4) + v[2]; }
int in9_@(int (*f)(int), int x) { return f(f(x)); }
int l9_@(int x) { return in9_@(l0_@, x) + in9_@(l6_@, x & 7); }
int in10_@(int a, int b, int c, int d, int e, int f, int g, int h) { return a - b + c - d * 2 + e - f + g * 3 - h; }
int l10_@(int x) { return in10_@(x, 1, x + 1, 2, l0_@(x), 3, x * 2, l7_@(x)); }
int l11_@(int x) { int r = x > 3 ? x < 6 ? 1 : 2 : x && 1 ? 3 : 4; return r * 10 + (x || r); }
int in12_@(char *s, int c) { int n = 0; while (*s) { if (*s == c) n++; s++; } return n; }
int l12_@(int x) { char *s = "abracadabra"; return in12_@(s, 97 + (x & 3)) + s[(unsigned int)x % 11u]; }
int l13_@(int x) { long w = x; unsigned int u = x; return (w * w % 1000) + (u >> 28); }
int l14_@(int x) { if (x < 0) return -1; if (x > 20) return 20; return l14_@(x + 5) + l14_@(x + 9); }
int l15_@(int x) { int k = 0; for (int i = 0; i < 4; i++) { for (int j = i; j < 4; j++) { if (j == x) break; if (i == x) continue; k = k * 3 + j; } } return k; }
'''


def part_calls(tier):
    """every composition of three functions of a library, nested and one after the other"""
    n = 16
    args = [(0,), (3,), (-5,), (17,)]
    for i, j in itertools.product(range(n), repeat=2):
        yield Unit(LIBF + 'int f@(int a) { g@ = 1; return l%d_@(a) + l%d_@(a + 1) * 3; }' % (i, j), args, tag='sum')
        yield Unit(LIBF + 'int f@(int a) { g@ = 1; int x = l%d_@(a); int y = l%d_@(x); return x - y; }' % (i, j), args, tag='sequence')
        yield Unit(LIBF + 'int f@(int a) { g@ = 1; return in9_@(l%d_@, l%d_@(a)) + in9_@(l%d_@, a); }' % (i, j, j), args, tag='through pointers')
        yield Unit(LIBF + 'int f@(int a) { g@ = 1; return in10_@(1, l%d_@(a), 2, a, 3, 4, l%d_@(a), 5); }' % (i, j), args, order=True, tag='arguments')
    for i, j, k in itertools.product(range(n), repeat=3):
        yield Unit(LIBF + 'int f@(int a) { g@ = 1; return l%d_@(l%d_@(l%d_@(a))); }' % (i, j, k), args, tag='nested')


def perms(n, vals):
    return list(itertools.product(vals, repeat=n))


ALGO = [
    ('int f@(int a, int b) { while (b) { int t = a % b; a = b; b = t; } return a; }', [(i, j) for i in range(0, 25) for j in range(0, 25)]),
    ('int f@(int a, int b, int c, int d, int e) { int v[5]; v[0] = a; v[1] = b; v[2] = c; v[3] = d; v[4] = e; for (int i = 0; i < 5; i++) for (int j = 0; j < 4 - i; j++) if (v[j] > v[j + 1]) { int t = v[j]; v[j] = v[j + 1]; v[j + 1] = t; } int r = 0; for (int i = 0; i < 5; i++) r = r * 10 + v[i]; return r; }', perms(5, [1, 2, 3])),
    ('void sort@(int *v, int n) { if (n < 2) return; int p = v[0]; int i = 0; for (int j = 1; j < n; j++) { if (v[j] < p) { i++; int t = v[i]; v[i] = v[j]; v[j] = t; } } v[0] = v[i]; v[i] = p; sort@(v, i); sort@(v + i + 1, n - i - 1); }\nint f@(int a, int b, int c, int d) { int v[4]; v[0] = a; v[1] = b; v[2] = c; v[3] = d; sort@(v, 4); int r = 0; for (int i = 0; i < 4; i++) r = r * 10 + v[i]; return r; }', perms(4, [1, 2, 3, 4])),
    ('int f@(int n) { char s[60]; for (int i = 0; i < 60; i++) s[i] = 1; int c = 0; for (int i = 2; i < n; i++) { if (s[i]) { c++; for (int j = i * i; j < n; j = j + i) s[j] = 0; } } return c; }', [(i,) for i in range(2, 60)]),
    ('int fib@(int n) { return n < 2 ? n : fib@(n - 1) + fib@(n - 2); }\nint f@(int n) { return fib@(n); }', [(i,) for i in range(0, 14)]),
    ('int f@(int n) { int a[3][3]; int b[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { a[i][j] = i * n + j; b[i][j] = i == j; } int c[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { c[i][j] = 0; for (int k = 0; k < 3; k++) c[i][j] += a[i][k] * a[k][j] + b[k][j]; } int r = 0; for (int i = 0; i < 9; i++) r = r * 7 % 10007 + c[i / 3][i % 3]; return r; }', [(i,) for i in range(-5, 12)]),
    ('struct N@ { int v; struct N@ *n; };\nint f@(int a, int b, int c) { struct N@ x; struct N@ y; struct N@ z; x.v = a; y.v = b; z.v = c; x.n = &y; y.n = &z; z.n = &x; struct N@ *p = &x; int r = 0; for (int i = 0; i < 7; i++) { r = r * 3 + p->v; p->v = p->v + 1; p = p->n; } return r; }', perms(3, [0, 1, 5, -3])),
    ('int ok@(int *q, int n) { for (int i = 0; i < n; i++) { int d = q[i] - q[n]; if (d == 0 || d == n - i || d == i - n) return 0; } return 1; }\nint put@(int *q, int n, int k) { if (n == k) return 1; int r = 0; for (int i = 0; i < k; i++) { q[n] = i; if (ok@(q, n)) r += put@(q, n + 1, k); } return r; }\nint f@(int k) { int q[8]; return put@(q, 0, k); }', [(i,) for i in range(1, 6)]),
    ('unsigned int f@(unsigned int x) { unsigned int h = 5381u; for (int i = 0; i < 8; i++) { h = h * 33u ^ (x & 255u); x = x >> 4 | x << 28; } return h; }', [(v,) for v in (0, 1, 255, 256, 65537, 2 ** 31, 2 ** 32 - 1, 123456789)]),
    ('char b@[40];\nint f@(int x) { int n = 0; int neg = x < 0; long v = neg ? -(long)x : x; if (v == 0) b@[n++] = 48; while (v) { b@[n++] = 48 + v % 10; v /= 10; } if (neg) b@[n++] = 45; int r = 0; for (int i = n - 1; i >= 0; i--) { r = r * 31 + b@[i]; r %= 1000003; } b@[n] = 0; return r; }', [(v,) for v in (0, 7, -7, 10, 12345, -99999, 2 ** 31 - 1, -2 ** 31)]),
    ('int f@(int x) { int n = 0; while (x != 1) { if (x % 2 == 0) x = x / 2; else x = 3 * x + 1; n++; } return n; }', [(i,) for i in range(1, 30)]),
    ('long pw@(long b, int e, long m) { long r = 1l; while (e > 0) { if (e & 1) r = r * b % m; b = b * b % m; e >>= 1; } return r; }\nlong f@(long b, int e) { return pw@(b, e, 1000000007l); }', [(b, e) for b in (0, 1, 2, 10, 999999) for e in (0, 1, 2, 5, 31, 1000000)]),
    ('int h@(int n, int a, int b, int c) { if (n == 0) return 0; return h@(n - 1, a, c, b) * 2 + a + c + h@(n - 1, b, a, c); }\nint f@(int n) { return h@(n, 1, 2, 3); }', [(i,) for i in range(0, 7)]),
    ('int cmp@(char *a, char *b) { while (*a && *a == *b) { a++; b++; } return *a - *b; }\nint f@(int i, int j) { char *t[5]; t[0] = ""; t[1] = "a"; t[2] = "ab"; t[3] = "b"; t[4] = "abc"; return cmp@(t[i], t[j]); }', [(i, j) for i in range(5) for j in range(5)]),
    ('int f@(int x, int n) { int v[9]; for (int i = 0; i < 9; i++) v[i] = i * i - 3; int lo = 0; int hi = n; while (lo < hi) { int m = (lo + hi) / 2; if (v[m] < x) lo = m + 1; else hi = m; } return lo; }', [(x, n) for x in range(-5, 66, 3) for n in range(0, 10)]),
    ('enum T@ { NUM@, ADD@, MUL@, NEG@ };\nstruct X@ { enum T@ t; int v; struct X@ *l; struct X@ *r; };\nint ev@(struct X@ *e) { switch (e->t) { case NUM@: return e->v; case ADD@: return ev@(e->l) + ev@(e->r); case MUL@: return ev@(e->l) * ev@(e->r); case NEG@: return -ev@(e->l); } return 0; }\nint f@(int a, int b) { struct X@ n[5]; n[0].t = NUM@; n[0].v = a; n[1].t = NUM@; n[1].v = b; n[2].t = ADD@; n[2].l = &n[0]; n[2].r = &n[1]; n[3].t = NEG@; n[3].l = &n[2]; n[4].t = MUL@; n[4].l = &n[3]; n[4].r = &n[0]; return ev@(&n[4]); }'.replace('case NUM@', 'case 0').replace('case ADD@', 'case 1').replace('case MUL@', 'case 2').replace('case NEG@', 'case 3'), [(a, b) for a in range(-3, 4) for b in range(-3, 4)]),
]


def part_algorithms(tier):
    for s, c in ALGO:
        yield Unit(s, c, tag='algorithm')


def sizes(tier, top):
    base = list(range(1, 81)) + [1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 48, 49, 63, 64, 65, 95, 96, 97, 127, 128, 129, 160, 191, 192, 193, 255, 256, 257, 320, 383, 384, 385, 511, 512, 513]
    if tier == 'thorough':
        base += [640, 767, 768, 769, 1023, 1024, 1025, 1535, 1536, 1537, 2047, 2048, 2049]
    return sorted({n for n in base if n <= top})


NAMERS = [lambda i: 'n%d' % i, lambda i: 'n' + ''.join(chr(97 + int(d)) for d in '%04d' % i), lambda i: 'x' * (i % 40) + '_%d' % i, lambda i: 'v%d_%d' % (i % 7, i * 7919)]


def part_scale(tier):
    """tables of every kind of entity, each entity looked up: one case per entity"""
    for N in sizes(tier, 10000):
        for ni, nm in enumerate(NAMERS if N <= 513 else NAMERS[:1]):
            n = lambda i: nm(i) + 'x@'
            idx = [(i,) for i in sorted(set(range(min(N, 40))) | {N - 1, N // 2, N // 3, N - 2 if N > 1 else 0} | {i for i in range(N) if (i & (i - 1)) == 0 or (i & (i + 1)) == 0})]
            sw = lambda e: 'switch (i) { ' + ' '.join('case %d: return %s;' % (i, e(i)) for i in range(N)) + ' } return -1;'
            yield Unit(''.join('int %s = %d;\n' % (n(i), i * 7 + 3) for i in range(N)) + 'int f@(int i) { %s }' % sw(n), idx, tag='globals')
            yield Unit(''.join('int %s(int x) { return x * 2 + %d; }\n' % (n(i), i * 5) for i in range(N)) + 'int f@(int i) { %s }' % sw(lambda i: '%s(i)' % n(i)), idx, tag='functions')
            yield Unit('int f@(int i) { %s %s }' % (' '.join('int %s = %d;' % (n(i), i * 3 + 1) for i in range(N)), sw(n)), idx, tag='locals')
            yield Unit('struct S@ { %s };\nlong f@(int i) { struct S@ s; %s %s }' % (' '.join('%s %s;' % (('int', 'char', 'long')[i % 3], n(i)) for i in range(N)), ' '.join('s.%s = %d;' % (n(i), i % 100) for i in range(N)), sw(lambda i: 's.%s * 1000l + sizeof(s.%s)' % (n(i), n(i)))), idx, tag='members')
            yield Unit('enum E@ { %s };\nint f@(int i) { %s }' % (', '.join(n(i) if i % 5 else '%s = %d' % (n(i), i * 2) for i in range(N)), sw(n)), idx, tag='enumerators')
            yield Unit('int f@(int i) { int r = 0; %s return r; }' % ' '.join('if (i == %d) { int %s = %d; r = r + %s; }' % (i, n(i), i + 9, n(i)) for i in range(N)), idx, tag='blocks')
            yield Unit(''.join('struct %s { int a[%d]; };\n' % (n(i), i % 50 + 1) for i in range(N)) + 'int f@(int i) { %s }' % sw(lambda i: 'sizeof(struct %s)' % n(i)), idx, tag='tags')
            yield Unit('typedef int T@; ' + ''.join('typedef %s %s;\n' % (('char', 'int', 'long', 'int *', 'T@')[i % 5], n(i)) for i in range(N)) + 'int f@(int i) { %s }' % sw(lambda i: 'sizeof(%s)' % n(i)), idx, tag='typedef names')
            if ni == 0:
                yield Unit('int f@(int i) { char *s = "none"; switch (i) { %s } int h = 0; while (*s) { h = h * 31 + *s; h = h %% 1000003; s++; } return h; }' % ' '.join('case %d: s = "s%d"; break;' % (i, i * 11) for i in range(N)), idx, tag='strings')
                yield Unit('int f@(int i) { char *s = "same"; char *t = s; switch (i) { %s } return s[0] + s[3] * 256 + (s[4] == 0); }' % ' '.join('case %d: s = "same"; break;' % i for i in range(N)), idx, tag='equal strings')
                yield Unit('int v@[%d] = {%s};\nint f@(int i) { return v@[i]; }' % (N, ', '.join(str(i * 3 + 5) for i in range(N))), idx, tag='elements')
                yield Unit('int f@(int i) { int v[%d] = {%s}; return v[i]; }' % (N, ', '.join(str(i * 3 + 5) for i in range(N))), idx, tag='local elements')
                yield Unit('int f@(int i) { int r = 0; %s return r; }' % ' '.join('r = r + (i > %d);' % i for i in range(N)), idx, tag='statements')
                yield Unit('int f@(int i) { int r = i; %s return r; }' % ' '.join('while (r > %d) r = r - 2;' % (2 * N - i) for i in range(N)), idx, tag='loops')
                yield Unit('int k@(int x) { return x + 1; }\nint f@(int i) { %s return i; }' % ' '.join('i = k@(i);' for i in range(N)), idx[:4], tag='calls')
                yield Unit('int f@(int i) { return i%s; }' % ''.join(' + (i ^ %d)' % k for k in range(N)), idx[:4], tag='terms')
                yield Unit('int f@(int i) { return %s; }' % ' || '.join('i == %d' % (3 * k) for k in range(N)), idx, tag='alternatives')
                yield Unit('int f@(int i) { int r = 1; %s r = r + i; %s return r + i; }' % (' '.join('{ int a = %d; i = i + a;' % (k % 3) for k in range(N)), '}' * N), idx[:3], tag='nesting') if N <= 200 else Unit('int f@(int i) { return i; }', [(1,)])
            if N <= 40:
                yield Unit('int g@(%s) { return %s; }\nint f@(int i) { return g@(%s); }' % (', '.join('int %s' % n(i) for i in range(N)), ' + '.join('%s * %d' % (n(i), i + 1) for i in range(N)), ', '.join('i + %d' % i for i in range(N))), [(1,), (-4,)], tag='parameters')


ASMNAMES = ('rax rbx rcx rdx rsi rdi rbp rsp r8 r9 r10 r15 eax edi esp ax al ah bl cl dil spl r8d r8b rip eip cs ds es fs gs ss st st0 mm0 xmm0 xmm1 ymm0 cr0 dr0 k0 mov movl movq add sub imul idiv call ret jmp je lea leaq push pop nop '
            'rep lock cltq cqto text data bss rodata globl global section quad string byte word dword qword ptr offset flat short near far type size macro endm set equ align org include and or not xor shl shr mod eq ne lt gt le ge '
            'L L0 L1 L2 LC0 LC1 LS0 LF0 _L0 __L0 Ltmp0 label end_ start_ f F g G x X a A _ __ _0 __0 dot here GOT PLT GOTPCREL plt got common local hidden weak b0 b1 f1 d0 e1 e5 l u ll ul').split()


def part_names(tier):
    """names that mean something to the assembler, as every kind of entity"""
    for n in ASMNAMES:
        yield Unit('int %s = 41;\nint f@(int i) { %s = %s + i; int *q = &%s; return *q + %s; }' % (n, n, n, n, n), [(1,)], tag='global')
        yield Unit('int %s(int i) { return i * 3; }\nint f@(int i) { int (*q)(int) = %s; return %s(i) + q(i); }' % (n, n, n), [(7,)], tag='function')
        yield Unit('int %s[3] = {1, 2, 3};\nint f@(int i) { int *q = %s; %s[i] = 9; return q[2] + %s[1] * 10; }' % (n, n, n, n), [(1,), (2,)], tag='array')
        yield Unit('struct %s { int %s; };\nint f@(int i) { struct %s %s; %s.%s = i; { int %s = 4; i = i + %s; } return %s.%s * i; }' % ((n,) * 10), [(7,)], tag='local') if n != 'i' else Unit('int f@(int i) { return i; }', [(1,)])
        yield Unit('int f@(int %s) { return %s + 1; }' % (n, n), [(7,)], tag='parameter')
        yield Unit('typedef int %s;\n%s f@(%s y) { %s z = y; return z; }' % (n, n, n, n), [(7,)], tag='typedef name')
        yield Unit('enum %s { B@, %s = 6 };\nint f@(int y) { return %s + y; }' % (n, n, n), [(7,)], tag='enumerator')


# ---------------------------------------------------------------- several files, both link modes
def _files_worker(job):
    bid, (mode, units) = job
    env = harness._G['env']
    exe = harness._G['exe']
    st = new_stats()
    fails = []
    w = workdir()
    path = os.path.join(w, 'm%d_%d' % (os.getpid(), bid))
    live = []
    for i, u in enumerate(units):
        st['units'] += 1
        v, detail, exps, full = model_unit(u, i, env, st)
        if v == 'accept':
            live.append((i, u, exps))
    objs = []
    made = []
    try:
        for k in range(4):
            part = live[k::4]
            if not part:
                continue
            src = full_src(env, [u for _, u, _ in part], [i for i, _, _ in part])
            pk = '%s_%d' % (path, k)
            made += [pk + e for e in ('.c', '.s', '.o')]
            rc, err = compile_src(exe, src, pk)
            if rc != 0:
                return st, [dict(program=src, detail='umlcc failed on a well-formed program: rc=%s %s' % (rc, clean(err)))], None
            rc, o, e = run_cmd(['as', '-o', pk + '.o', pk + '.s'])
            if rc:
                return st, [dict(program=src, detail='as: ' + e[:400])], None
            objs.append(pk + '.o')
        with open(path + '_x.s', 'w') as f:
            f.write(env.asm([u.entry.replace('@', str(i)) for i, u, _ in live]).replace('.section .rodata', '.section .data.rel.ro,"aw"'))
        made += [path + e for e in ('_x.s', '_x.o', '.exe', '.in', '.out')]
        rc, o, e = run_cmd(['as', '-o', path + '_x.o', path + '_x.s'])
        if rc:
            raise RuntimeError(e)
        pie = mode == 'pie'
        ro = [w + '/pie_%s.o' % n for n in ('runner', 'tramp')] if pie else [w + '/%s.o' % n for n in ('runner', 'tramp')]
        rc, o, e = run_cmd(['gcc', '-pie' if pie else '-no-pie', '-o', path + '.exe', w + '/mark0.o'] + objs + [w + '/mark1.o', path + '_x.o'] + ro)
        if rc:
            return st, [dict(program=full_src(env, [u for _, u, _ in live], [i for i, _, _ in live]), detail='files compiled separately do not link (%s): %s' % (mode, e[-500:]))], None
        cases = [(k, x.raw) for k, (_, _, ex) in enumerate(live) for x in ex]
        with open(path + '.in', 'wb') as f:
            f.write(struct.pack('<I', len(cases)))
            for fi, raw in cases:
                f.write(struct.pack('<II%dQ' % len(raw), fi, len(raw), *raw))
        rc, o, e = run_cmd([path + '.exe', path + '.in', path + '.out'], timeout=120)
        if rc:
            return st, [dict(program='', detail='linked program (%s): %s %s' % (mode, rc, e[:300]))], None
        data = open(path + '.out', 'rb').read()
        pos = 0
        for i, u, ex in live:
            for x in ex:
                s, fl, rax, nt, _p = struct.unpack_from('<IIQII', data, pos)
                pos += 24
                tr = list(struct.unpack_from('<%dQ' % nt, data, pos)) if nt else []
                pos += 8 * nt
                st['executed'] += 1
                m = compare(x, (s, fl, rax, tr))
                if m and len(fails) < 3:
                    fails.append(dict(program=full_src(env, [u], [i]), detail='linked from four files (%s): args %s: %s' % (mode, list(x.args), m)))
    finally:
        for f in made:
            if os.path.exists(f):
                os.unlink(f)
    return st, fails, dict(program=live[0][1].src, mode=mode)


def files_units(tier):
    us = []
    for w, a in itertools.product(WRAP, CORE):
        us.append(Unit(fn(wrap(w, a)), CASES[:1]))
    for i, j in itertools.product(range(16), repeat=2):
        us.append(Unit(LIBF + 'int f@(int a) { g@ = 1; return l%d_@(l%d_@(a)); }' % (i, j), [(3,)]))
    for s, c in ALGO:
        us.append(Unit(s, c[:20]))
    return us


def part_files(rep, tier):
    harness._G['env'] = Env()
    harness.build_runner()
    for n in ('runner.c', 'tramp.S'):
        rc, out = harness._cc(['gcc', '-fPIE', '-O2', '-w', '-c', os.path.join(LIB, n), '-o', workdir() + '/pie_' + n[:-2] + '.o'])
        if rc:
            raise RuntimeError(out)
    tot, fails, samples = new_stats(), [], []

    def jobs():
        for mode in ('pie', 'no-pie'):
            for ch in chunks(files_units(tier), 40):
                yield mode, ch
    for st, fl, smp in harness._spread(_files_worker, enumerate(jobs()), lambda: len(fails) >= 10):
        for k in tot:
            tot[k] += st[k]
        fails += fl
        if smp and len(samples) < 2:
            samples.append(smp)
    rep.add('files', tot, fails, samples)
    if os.environ.get('MC_DEBUG'):
        print('files', tot)


PARTS = [('pairs', part_pairs), ('nested', part_nested), ('calls', part_calls), ('algorithms', part_algorithms), ('scale', part_scale), ('names', part_names)]


def run(rep, tier, only):
    harness._G['exe'] = build_umlcc()
    for name, gen in PARTS + ([('deep', part_deep)] if tier == 'thorough' else []):
        if (only and name not in only) or len(rep.new_fails()) >= 10:
            continue
        t = harness.time.time()
        st, fails, samples = run_units(gen(tier), debug=bool(os.environ.get('MC_DEBUG')), batch={'scale': 4, 'names': 1}.get(name, 40))
        rep.add(name, st, fails, samples)
        if os.environ.get('MC_DEBUG'):
            print(name, st, '%.1fs' % (harness.time.time() - t))
        if st.get('rejected_by_model'):
            raise RuntimeError('generator made ill-formed programs in part ' + name)
    if (not only or 'files' in only) and len(rep.new_fails()) < 10:
        part_files(rep, tier)
