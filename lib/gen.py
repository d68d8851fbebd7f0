"""shared enumeration helpers"""
import itertools
import refc

TYPES = ['char', 'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long']
TOBJ = dict(zip(TYPES, [refc.CHAR, refc.INT, refc.UINT, refc.LONG, refc.ULONG, refc.LLONG, refc.ULLONG]))
ARITH = ['+', '-', '*', '/', '%']
BIT = ['&', '|', '^']
SHIFT = ['<<', '>>']
CMP = ['<', '>', '<=', '>=', '==', '!=']
LOGIC = ['&&', '||']
BINOPS = ARITH + BIT + SHIFT + CMP + LOGIC
UNOPS = ['+', '-', '~', '!']

I31 = 1 << 31
I63 = 1 << 63
VALS = {
    'char': [-128, -127, -2, -1, 0, 1, 2, 3, 7, 63, 64, 126, 127],
    'int': [-I31, -I31 + 1, -65536, -257, -256, -129, -128, -2, -1, 0, 1, 2, 3, 5, 31, 127, 128, 255, 256, 65535,
            I31 - 2, I31 - 1],
    'unsigned int': [0, 1, 2, 3, 5, 31, 127, 128, 255, 256, 65535, I31 - 1, I31, I31 + 1, 2 * I31 - 2, 2 * I31 - 1],
    'long': [-I63, -I63 + 1, -2 * I31 - 1, -2 * I31, -I31 - 1, -I31, -2, -1, 0, 1, 2, 3, 5, 63, 128, 255, I31 - 1, I31,
             2 * I31 - 1, 2 * I31, I63 - 2, I63 - 1],
    'unsigned long': [0, 1, 2, 3, 5, 63, 128, 255, I31 - 1, I31, 2 * I31 - 1, 2 * I31, I63 - 1, I63, I63 + 1,
                      2 * I63 - 2, 2 * I63 - 1],
}
VALS['long long'] = VALS['long']
VALS['unsigned long long'] = VALS['unsigned long']
# smaller sets for high-dimensional products
SV = {
    'char': [-128, -1, 0, 3, 127],
    'int': [-I31, -7, -1, 0, 1, 5, I31 - 1],
    'unsigned int': [0, 1, 6, I31, 2 * I31 - 1],
    'long': [-I63, -I31 - 1, -1, 0, 3, 2 * I31 + 5, I63 - 1],
    'unsigned long': [0, 1, 9, I63, 2 * I63 - 1],
}
SV['long long'] = SV['long']
SV['unsigned long long'] = SV['unsigned long']
TV = {t: [v[1], v[-2], v[len(v) // 2]] for t, v in SV.items()}
# shift counts are only meaningful when small
SHV = [0, 1, 2, 7, 8, 15, 16, 30, 31, 32, 33, 62, 63]


def lit(t, v):
    """a C constant expression of type t with value v using only literals of the subset"""
    suf = {'char': '', 'int': '', 'unsigned int': 'u', 'long': 'l', 'unsigned long': 'ul', 'long long': 'll',
           'unsigned long long': 'ull'}[t]
    ty = TOBJ[t]
    if v < 0:
        if v == ty.lo and ty.size >= 4:
            s = '(-%d%s-1)' % (-(v + 1), suf)
        else:
            s = '(-%d%s)' % (-v, suf)
    else:
        s = '%d%s' % (v, suf)
    return '((char)%s)' % s if t == 'char' else s


def pairs(xs, ys):
    return list(itertools.product(xs, ys))


def vals_for(op, side, t, base):
    if op in SHIFT or op in ('<<=', '>>='):
        if side == 1:
            o = TOBJ[t]
            return [v for v in SHV if v <= o.hi]
    return base[t]


# operand forms: how a value of type T held in parameter `v` gets into an expression
def forms(T, v, n):
    """returns list of (name, globals, setup, expr). n: distinguishes operands. v: parameter name"""
    return [
        ('param', '', '', v),
        ('local', '', '%s l%s = %s;' % (T, n, v), 'l%s' % n),
        ('global', '%s g@%s;\n' % (T, n), 'g@%s = %s;' % (n, v), 'g@%s' % n),
        ('deref', '', '%s d%s = %s; %s *p%s = &d%s;' % (T, n, v, T, n, n), '*p%s' % n),
        ('elem', '', '%s e%s[3]; e%s[1] = %s;' % (T, n, n, v), 'e%s[1]' % n),
        ('elemv', '', '%s e%s[3]; int i%s = 2; e%s[2] = %s;' % (T, n, n, n, v), 'e%s[i%s]' % (n, n)),
        ('member', 'struct S@%s { char c; %s m; char d; };\n' % (n, T), 'struct S@%s s%s; s%s.m = %s;' % (n, n, n, v),
         's%s.m' % n),
        ('arrow', 'struct S@%s { char c; %s m; char d; };\n' % (n, T),
         'struct S@%s s%s; struct S@%s *q%s = &s%s; q%s->m = %s;' % (n, n, n, n, n, n, v), 'q%s->m' % n),
        ('call', '%s id@%s(%s x) { return x; }\n' % (T, n, T), '', 'id@%s(%s)' % (n, v)),
        ('paren', '', '', '((%s))' % v),
        ('cast', '', '', '(%s)(long)%s' % (T, v)),
        ('cond', '', 'int c%s = 1;' % n, '(c%s ? %s : %s)' % (n, v, v)),
        ('asg', '', '%s a%s;' % (T, n), '(a%s = %s)' % (n, v)),
        ('post', '', '%s b%s = %s;' % (T, n, v), 'b%s++' % n),
        ('ptrptr', '', '%s d%s = %s; %s *p%s = &d%s; %s **r%s = &p%s;' % (T, n, v, T, n, n, T, n, n), '**r%s' % n),
        ('gelem', '%s h@%s[4];\n' % (T, n), 'h@%s[3] = %s;' % (n, v), 'h@%s[3]' % n),
    ]
