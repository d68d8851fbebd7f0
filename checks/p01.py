"""Integer expression evaluation: every operator x operand types x operand forms x boundary values."""
from harness import *
from gen import *


def part_types(tier):
    """all binary operators, all ordered type pairs, all boundary value pairs"""
    for op in BINOPS:
        for a in TYPES:
            for b in TYPES:
                base = VALS if tier == 'thorough' else SV
                va = VALS[a] if a == b or tier == 'thorough' else base[a]
                vb = vals_for(op, 1, b, VALS if a == b else base)
                rt = refc.usual(TOBJ[a], TOBJ[b])
                if op in SHIFT:
                    rt = refc.promote(TOBJ[a])
                r = 'int' if op in CMP + LOGIC else rt.kind
                yield Unit('%s f@(%s a, %s b) { return a %s b; }' % (r, a, b, op), pairs(va, vb), tag='bin ' + op)


def part_width(tier):
    """the result type itself: the value is widened to long before it is returned, so a wrong type shows"""
    for op in BINOPS:
        for a in TYPES:
            for b in TYPES:
                yield Unit('long f@(%s a, %s b) { return a %s b; }' % (a, b, op),
                           pairs(SV[a], vals_for(op, 1, b, SV)), tag='width ' + op)
                yield Unit('unsigned long f@(%s a, %s b) { return (a %s b) + 0ul; }' % (a, b, op),
                           pairs(TV[a], vals_for(op, 1, b, TV)), tag='width ' + op)


def part_forms(tier):
    """operands in every storage form on both sides"""
    tps = [(t, t) for t in TYPES] if tier == 'thorough' else [('int', 'int'), ('char', 'char'), ('long', 'long'),
                                                            ('unsigned int', 'unsigned int')]
    tps += [('char', 'long'), ('unsigned long', 'int'), ('int', 'unsigned int')]
    for a, b in tps:
        for op in BINOPS:
            if tier != 'thorough' and (a, b) not in (('int', 'int'),) and op in ('<=', '>=', '!=', '|', '^'):
                continue
            for fa in forms(a, 'a', 'x'):
                for fb in forms(b, 'b', 'y'):
                    if 'call' in (fa[0], fb[0]) and a != b and tier != 'thorough':
                        continue
                    yield Unit('%s%slong f@(%s a, %s b) { %s %s return %s %s %s; }' % (
                        fa[1], fb[1], a, b, fa[2], fb[2], fa[3], op, fb[3]),
                        pairs(TV[a], vals_for(op, 1, b, TV)[:5]), tag='form %s %s %s' % (fa[0], op, fb[0]))


def part_mixed(tier):
    """every pair of types under every operator with operands in every pair of storage forms, one function for each (types, operator)"""
    k = 0
    for op in BINOPS + ['=']:
        for a in TYPES:
            for b in TYPES:
                k += 1
                fa, fb = [[f for f in (forms(t, v, n + str(i))[i] for i in range(16)) if f[0] != 'post'] for t, v, n in ((a, 'a', 'x'), (b, 'b', 'y'))]
                es = []
                for i, x in enumerate(fa):
                    for j, y in enumerate(fb):
                        if tier == 'thorough' or (i * 3 + j + k) % 4 != 1:
                            if op == '=':
                                if x[0] in ('call', 'cast', 'cond', 'asg'):
                                    continue
                                es.append('tvl(%s = %s); tvl(%s);' % (x[3], y[3], x[3]))
                            else:
                                es.append('tvl(%s %s %s);' % (x[3], op, y[3]))
                            if op in SHIFT + ['&&', '<', '==', '+', '-'] and j % 3 == 0:
                                es.append('tv((%s %s %s) ? 1 : 2);' % (x[3], op, y[3]))
                setup = ' '.join(f[2] for f in fa + fb)
                yield Unit(''.join(f[1] for f in fa + fb) + 'int f@(%s a, %s b) { %s %s return 0; }' % (a, b, setup, ' '.join(es)),
                           pairs(TV[a], vals_for(op, 1, b, TV)[:5]), tag='mixed ' + op)


def part_enums(tier):
    """objects, members, elements and constants of enumerated types as operands, mixed with every type"""
    pre = 'enum E@ { EA@, EB@ = 3, EC@ = 2147483647 }; enum G@ { GA@, GB@ = 5 }; typedef enum G@ TG@; struct S@ { char c; enum E@ e; TG@ g[2]; }; enum E@ ge@;\n'
    forms = [('enum E@ a', 'a'), ('TG@ a', 'a'), ('enum E@ a', 's.e'), ('enum G@ a', 's.g[1]'), ('enum E@ a', '*&a'), ('enum E@ a', 'ge@'), ('int a', '(enum E@)a'), ('int a', '(TG@)(char)a'), ('char a', 'EB@'), ('long a', 'EC@'), ('long a', 'GB@')]
    others = [(t + ' b', 'b', t) for t in TYPES] + [('enum G@ b', 'b', 'int'), ('enum E@ b', 'b', 'int'), ('int b', 'GB@', 'int'), ('int b', 'EC@', 'int'), ('int b', '2', 'int')]
    for d1, e1 in forms:
        va = SV['int' if 'long' not in d1 and 'char' not in d1 else 'char']
        setup = 'struct S@ s; s.e = a; s.g[1] = a; ge@ = a; ' if d1.split()[0] in ('enum', 'TG@') else ''
        for op in UNOPS:
            yield Unit(pre + 'long f@(%s) { %sreturn %s%s; }' % (d1, setup, op, e1), [(v,) for v in va], tag='enum-unary')
        for d2, e2, t2 in others:
            for op in BINOPS:
                vb = SHV if op in SHIFT else SV[t2]
                vb = [v for v in vb if TOBJ[t2].lo <= v <= TOBJ[t2].hi]
                yield Unit(pre + 'long f@(%s, %s) { %sreturn %s %s %s; }' % (d1, d2, setup, e1, op, e2), pairs(va, vb), tag='enum-left')
                yield Unit(pre + 'long f@(%s, %s) { %sreturn (%s %s %s) / 2; }' % (d1, d2, setup, e2, op, e1), pairs(va, vb), tag='enum-right')
            yield Unit(pre + 'long f@(%s, %s) { %sreturn (a ? %s : %s) / 2; }' % (d1, d2, setup, e1, e2), pairs(va, SV[t2]), tag='enum-choice')
            yield Unit(pre + 'long f@(%s, %s) { %sreturn sizeof(%s + %s); }' % (d1, d2, setup, e1, e2), pairs(va[:2], SV[t2][:2]), tag='enum-size')


def part_literals(tier):
    """constant operands on either side (immediates of every width) and on both sides"""
    for t in TYPES:
        for op in BINOPS:
            lits = VALS[t] if tier == 'thorough' else (SV[t] + VALS[t][-4:-2])
            lits = list(dict.fromkeys(lits))
            for v in lits:
                l = lit(t, v)
                for o in ([t, 'int', 'long'] if tier == 'thorough' else [t, 'int']):
                    if not (op in SHIFT and not 0 <= v < 64):
                        yield Unit('long f@(%s a) { return a %s %s; }' % (o, op, l), [(x,) for x in VALS[o]],
                                   tag='lit-right ' + op)
                    yield Unit('long f@(%s a) { return %s %s a; }' % (o, l, op),
                               [(x,) for x in vals_for(op, 1, o, VALS)], tag='lit-left ' + op)
                for w in vals_for(op, 1, t, TV):
                    yield Unit('long f@(void) { return %s %s %s; }' % (l, op, lit(t, w)), [()], tag='lit-both ' + op)


def part_unary(tier):
    casts = ['(char)', '(int)', '(unsigned)', '(long)', '(unsigned long)', '(long long)', '(unsigned long long)']
    ops = UNOPS + casts
    n = 3
    for k in range(1, n + 1):
        ts = TYPES if k < 3 or tier == 'thorough' else ['char', 'int', 'unsigned int', 'long', 'unsigned long']
        for seq in itertools.product(ops, repeat=k):
            if tier != 'thorough' and k == 3 and sum(s in casts for s in seq) == 3 and len(set(seq)) < 3:
                continue
            for t in ts:
                yield Unit('long f@(%s a) { return %s a; }' % (t, ' '.join(seq)), [(v,) for v in SV[t]],
                           tag='unary')


OPS2 = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '<', '>=', '==', '!=', '&&', '||']


def part_nested(tier):
    """all two-operator trees in both associations, three-operand types"""
    tts = [('int', 'int', 'int'), ('char', 'int', 'long'), ('unsigned int', 'int', 'long'),
           ('long', 'char', 'unsigned int'), ('unsigned long', 'int', 'char'), ('unsigned int', ) * 3, ('long', ) * 3,
           ('char', ) * 3]
    if tier == 'thorough':
        tts = list(itertools.product(['char', 'int', 'unsigned int', 'long', 'unsigned long'], repeat=3))
    tri = lambda T: [(x, y, z) for x in TV[T[0]][:2] + [9] for y in (1, 3, TV[T[1]][1]) for z in (0, 1, 5)]
    for T in tts:
        cs = tri(T)
        for o1 in OPS2:
            for o2 in OPS2:
                for sh in ('(a %s b) %s c', 'a %s (b %s c)', 'a %s b %s c'):
                    yield Unit('long f@(%s a, %s b, %s c) { return %s; }' % (T + (sh % (o1, o2),)), cs,
                               tag='nested %s %s' % (o1, o2))


def part_balanced(tier):
    ops = ['+', '-', '*', '/', '%', '<<', '<', '==', '&', '&&', '||'] if tier != 'thorough' else OPS2
    cs = [(7, 3, 2, 1), (-9, 4, 5, 2), (0, 1, 1, 3), (100, -7, 13, 6)]
    for T in (['int', 'long'] if tier != 'thorough' else ['int', 'long', 'unsigned int', 'char', 'unsigned long']):
        for o1 in ops:
            for o2 in ops:
                for o3 in ops:
                    yield Unit('long f@(%s a, %s b, %s c, %s d) { return (a %s b) %s (c %s d); }' % (
                        T, T, T, T, o1, o2, o3), cs, tag='balanced')


def part_ternary(tier):
    for c in TYPES:
        for a in TYPES:
            for b in TYPES:
                cs = [(x, y, z) for x in (0, 1, -1, SV[c][0], SV[c][-1]) for y in TV[a] for z in TV[b]]
                yield Unit('long f@(%s c, %s a, %s b) { return c ? a : b; }' % (c, a, b), cs, tag='ternary')
    conds = ['c', '!c', 'c && a', 'c || a', 'c < a', 'c == b', '(c ? a : b)', 'c = a', 'c++', '*&c']
    for x in conds:
        for y in ['a', 'a + 1', '(c ? b : a)', 'a && b', '-a', '(char)a', 'b = a']:
            for z in ['b', 'b - 1', '(a ? c : b)', 'a || b', '~b', '(long)b', 'c ? a : b']:
                yield Unit('long f@(int c, int a, int b) { return (%s) ? %s : %s; }' % (x, y, z),
                           [(p, q, r) for p in (0, 1, 5) for q in (-1, 0, 7) for r in (0, 2)], tag='ternary-shape')


def part_exhaustive(tier):
    """all 65536 pairs of char values under every operator; every char value under every unary operator and cast"""
    for op in BINOPS:
        for a in range(-128, 128, 16):
            cs = [(x, y) for x in range(a, a + 16) for y in range(-128, 128) if not (op in SHIFT and not 0 <= y < 32) and not (op in '/%' and y == 0) and not (op == '<<' and x < 0)]
            yield Unit('int f@(char a, char b) { return a %s b; }' % op, cs, tag='char x char ' + op)
    for op in UNOPS + ['(char)', '(int)', '(unsigned)', '(long)', '(unsigned long)', '!!', '-(char)-', '~(char)~']:
        yield Unit('long f@(char a) { return %sa; }' % op, [(x,) for x in range(-128, 128)], tag='char ' + op)
        yield Unit('long f@(int a) { return %s(char)a; }' % op, [(x,) for x in range(-300, 600)], tag='low byte ' + op)


NEAR = list(range(-18, 19)) + [-1000, -257, -129, -100, -65, 65, 99, 100, 127, 128, 255, 1000, 4095]


def part_constants(tier):
    """every small constant and every power of two with its neighbours, as right and left operand of every operator"""
    # operations that are undefined where they stand but not reached
    for t in TYPES:
        for e in ['a %s %s' % (op, k) for op in SHIFT for k in (31, 32, 63, 64, 127, 128, 255, 256, 300, 65536, 2147483647, '4294967295u', 4294967296, '9223372036854775807', '18446744073709551615ul', '(-1)', '-1 - 4')] + ['a / 0', 'a % 0', '1 / (a - a)', '0 / 0', '1 % 0', '2147483647 + 1 + a']:
            yield Unit('long f@(%s a) { if (a == 77) return %s; return a + 1; }' % (t, e), [(v,) for v in (0, 1, 5, 78)], tag='not-reached')
            yield Unit('long f@(%s a) { return a == 77 && (%s); }' % (t, e), [(v,) for v in (0, 1, 5, 78)], tag='not-reached')
    for t in ['int', 'unsigned int', 'long', 'unsigned long', 'char'] + (['long long', 'unsigned long long'] if tier == 'thorough' else []):
        o = TOBJ[t]
        vs = sorted({v for v in NEAR + VALS[t] + [1 << 20, -(1 << 20), (1 << 40) + 3, -(1 << 40) - 3, 123456789, -123456789, 9876543210, -9876543210] if o.lo <= v <= o.hi})
        ks = set(range(0, 70 if tier != 'thorough' else 300)) | {100, 1000, 1000000}
        for k in range(6, 64):
            ks |= {(1 << k) + d for d in (-1, 0, 1)}
        for k in sorted(ks):
            for suf, lt in (('', 'int'), ('u', 'unsigned int'), ('l', 'long'), ('ul', 'unsigned long')):
                if k > TOBJ[lt].hi or (suf and k > 40 and TOBJ[lt].size == 4 and k < 1 << 31):
                    continue
                if t == 'char' and suf:
                    continue
                for op in BINOPS:
                    if op in SHIFT and (k > 63 or suf not in ('', 'u')) and op in SHIFT:
                        pass
                    elif op not in LOGIC or k < 3:
                        yield Unit('long f@(%s a) { return a %s %d%s; }' % (t, op, k, suf), [(v,) for v in vs], tag='const-right ' + op)
                    if op in SHIFT:
                        yield Unit('long f@(%s a) { return %d%s %s a; }' % (t, k, suf, op), [(v,) for v in range(64)], tag='const-left ' + op)
                    elif op not in LOGIC or k < 3:
                        yield Unit('long f@(%s a) { return %d%s %s a; }' % (t, k, suf, op), [(v,) for v in (vs if tier == 'thorough' else vs[::3])], tag='const-left ' + op)


PARTS = [('enums', part_enums), ('operators-x-types', part_types), ('result-type', part_width), ('operand-forms', part_forms), ('mixed', part_mixed),
         ('literal-operands', part_literals), ('unary-chains', part_unary), ('two-operator-trees', part_nested),
         ('balanced-trees', part_balanced), ('char-exhaustive', part_exhaustive), ('constants', part_constants), ('conditional-operator', part_ternary)]
