"""The compiler itself: on every input it ends with a result or a diagnosis, without touching memory it must not touch, and in
reasonable time. The enumerated inputs of the other checks are compiled by builds with AddressSanitizer and MemorySanitizer."""
import importlib
import itertools
import os
import harness
from harness import *
from gen import *

CORPORA = [  # (check, part, every nth batch is not skipped: all are taken)
    ('p11', 'v:munch'), ('p11', 'v:ints'), ('p11', 'v:chars'), ('p11', 'v:ids'), ('p11', 'v:bytes'), ('p12', 'v:specs'), ('p12', 'v:tokens'),
    ('p13', 'v:binary'), ('p13', 'v:unary'), ('p13', 'v:convert'), ('p13', 'v:calls'), ('p13', 'v:place'), ('p13', 'v:decl'), ('p13', 'v:mutate'),
    ('p10', None),
]


def part_gen(mod, part, tier):
    for n, g in importlib.import_module(mod).PARTS:
        if n == part or (part is None and n.startswith('v:')):
            yield from g(tier)


def short_tokens(tier):
    """token sequences of P12 up to length 3 (4 in the thorough tier)"""
    import p12
    n = 4 if tier == 'thorough' else 3
    for k in range(1, n + 1):
        for t in itertools.product(p12.ETOK, repeat=k):
            yield 'int f(int a, int *p) { %s; return a; }' % ' '.join(t), 'expression'
    for k in range(1, n + 1):
        for t in itertools.product(['a', ';', '{', '}', 'if (a)', 'else', 'while (a)', 'for (;a;)', 'return', 'break', 'switch (a)', 'case 1:', 'default:', 'int b', '1'], repeat=k):
            yield 'int f(int a) { %s return a; }' % ' '.join(t), 'statement'
        for t in itertools.product(['int', 'x', '*', '(', ')', '[2]', ';', ',', '=', '1', '{', '}', 'struct', 'enum', 'typedef', 'void', 'return x;'], repeat=k):
            yield ' '.join(t) + '\nint last(void) { return 1; }', 'file scope'


def part_nasty(tier):
    """inputs aimed at recovery after an error: two faults in one program, all pairs"""
    bad = ['struct q x;', 'int x = ;', 'y = 1;', 'int x[0];', 'void x;', 'int x = y;', 'struct { struct q m; } x;', 'typedef struct q x;', 'typedef unsigned unsigned x;', 'enum { x = y };', 'enum x { A, A };', 'int x, x;', 'x(1);', 'int x(void) { return 1; }',
           '1 = 2;', '*1;', '&1;', 'break;', 'case 1: ;', 'return y;', 'z.m;', 'z->m;', 'struct x { int m; int m; };', 'for (int x = y; ; ) ;', 'while (y) ;', 'switch (y) { case y: ; }', 'if (y) z; else y;', 'int x = {1, 2};', 'int x[2] = {1, 2, 3};', 'char x[2] = "abc";',
           'struct x { int m; } x = {1, 2};', 'int *x = 1;', 'sizeof(y);', 'sizeof(struct q);', '(struct q)z;', 'z ? y : 1;', 'z(y);', 'f(y, y);', 'f();', 'struct q *x; x->m;', 'struct q *x; *x;', 'struct q *x; x + 1;', 'struct q *x; x[0];', 'struct q *x; sizeof(*x);', 'void *x; *x;', 'void *x; x + 1;', 'struct q x[2];', 'int x[2][0];', 'int x(int)[2];', 'int (x[2])(int);', '"abc" = 1;', 'f = 1;', '++f;', 'f++;', 'int z;', '{ int z; y; }', 'int x = x;', 'struct x *x = x;', 'x;', 'x: ;', 'z[1];', '1[1];', 'f[1];', 'z + f;', 'f + 1;', 'f - f;', '-f;', '!f;', '~f;', '~z;', 'z = f;', 'z += f;', 'f += 1;', 'return f;', 'return;', 'default: ;', 'continue;', '{', '}', '(', ')', ';']
    use = ['', 'x;', 'x = 1;', 'x.m = 1;', 'x->m;', 'x[0];', 'x(1);', 'sizeof(x);', '*x;', '&x;', 'x + 1;', 'x * 2;', 'int w = x;', 'x y;', 'x *y;', '(x)z;', 'struct x w;', 'enum x w;', 'struct x *w;', 'return x;', 'if (x) ;', 'switch (x) { case 1: ; }', 'A;', 'int w[x];', 'enum { w = x };', 'x++;', '-x;', 'f(x);', 'z ? x : z;', 'struct x { int m; };', 'typedef x w;', 'x = x;', 'sizeof(x) + x;', '{ x; }', 'for (x; x; x) x;', 'while (x) x;', 'int x;']
    for a in bad:
        for b in use:
            yield 'int f(int z) { %s %s return 0; }' % (a, b), 'bad then use'
            yield '%s int f(int z) { %s return 0; }' % (a, b), 'bad at file scope then use'
            yield 'int f(int z) { { %s } %s return 0; }' % (a, b), 'bad in a block'
            yield 'int f(%s) { %s return 0; }' % (a.rstrip(';'), b), 'bad parameter'
            yield 'struct w { %s }; int f(int z) { struct w x; %s return 0; }' % (a, b), 'bad member'
        for b in bad:
            yield 'int f(int z) { %s %s return 0; }' % (a, b), 'two faults'
            yield '%s\n%s\nint f(int z) { return 0; }' % (a, b), 'two faults at file scope'
            yield 'int f(int z) { %s return 0; }\nint g(int z) { %s return 1; }' % (a, b), 'faults in two functions'


def _san_worker(job):
    _, (kind, items) = job
    st = dict(states=0, transitions=0, executed=0, accepted=0, diagnosed=0)
    fails = []
    if harness.give_up():
        return st, fails, None
    res = serve([s for s, _ in items], kind, tmo=30, group=100)
    for (s, tag), r in zip(items, res):
        if r.kind == 3:
            continue
        st['states'] += 1
        st['executed'] += 1
        st['transitions'] += len(s)
        if r.ok:
            st['accepted'] += 1
        elif r.diag:
            st['diagnosed'] += 1
        else:
            fails.append(dict(program=s, detail='[%s build] neither compiled nor diagnosed: %s' % (kind, r.show()), report=r.err.decode('latin-1')[:3000], tag=tag))
    harness.trouble(fails)
    return st, fails, dict(program=items[0][0][:400], build=kind)


def run_san(rep, name, items, kinds, n=300):
    tot, fails, samples = {}, [], []

    def jobs():
        for ch in chunks(((x[0], x[1]) for x in items), n):
            for k in kinds:
                yield (k, ch)
    for st, fl, smp in harness._spread(_san_worker, enumerate(jobs()), lambda: len(fails) >= 10):
        for k, v in st.items():
            tot[k] = tot.get(k, 0) + v
        fails += fl
        if smp and len(samples) < 2:
            samples.append(smp)
    rep.add(name, tot, fails, samples)
    if os.environ.get('MC_DEBUG'):
        print(name, tot, '%.1fs' % (harness.time.time() - harness.T0))


def batches_of(mod, tier, n=60, cap=None):
    """well-formed programs of another check, many functions to a file; at most `cap` files (evenly spread) of each of its parts"""
    env = getattr(importlib.import_module(mod), 'ENV', None) or harness.Env()
    for name, g in importlib.import_module(mod).PARTS:
        if name.startswith('v:'):
            continue
        all_ = list(chunks((u for u in g(tier) if not u.maybe and not u.opt), n))
        for us in all_[::max(1, -(-len(all_) // cap)) if cap else 1]:
            yield harness.full_src(env, us, list(range(len(us)))), '%s %s' % (mod, name)


def all_batches(tier, cap):
    for m in ['p01', 'p02', 'p03', 'p04', 'p07', 'p08', 'p09', 'p10', 'p12']:
        yield from batches_of(m, tier, cap=cap)


# ---- nesting and size
NEST = {
    'parentheses': lambda n: 'int f(int a) { return ' + '(' * n + 'a' + ')' * n + '; }',
    'unary minus': lambda n: 'int f(int a) { return ' + '- ' * n + 'a; }',
    'logical not': lambda n: 'int f(int a) { return ' + '!' * n + 'a; }',
    'casts': lambda n: 'int f(int a) { return ' + '(int)' * n + 'a; }',
    'mixed casts': lambda n: 'int f(int a) { return ' + '(char)(long)' * n + 'a; }',
    'blocks': lambda n: 'int f(int a) { ' + '{' * n + 'a=1;' + '}' * n + ' return a; }',
    'if': lambda n: 'int f(int a) { ' + 'if(a)' * n + 'a=1; return a; }',
    'else if': lambda n: 'int f(int a) { ' + ''.join('if(a==%d)a=%d;else ' % (i, i + 1) for i in range(n)) + 'a=1; return a; }',
    'while': lambda n: 'int f(int a) { ' + 'while(a)' * n + 'a=0; return a; }',
    'for': lambda n: 'int f(int a) { ' + 'for(;a;)' * n + 'a=0; return a; }',
    'switch': lambda n: 'int f(int a) { ' + 'switch(a) case 1:' * n + 'a=0; return a; }',
    'sum': lambda n: 'int f(int a) { return a' + '+a' * n + '; }',
    'and': lambda n: 'int f(int a) { return a' + '&&a' * n + '; }',
    'or': lambda n: 'int f(int a) { return a' + '||a' * n + '; }',
    'and in parentheses': lambda n: 'int f(int a) { return ' + '(a&&' * n + 'a' + ')' * n + '; }',
    'conditional right': lambda n: 'int f(int a) { return ' + 'a?1:' * n + '2; }',
    'conditional middle': lambda n: 'int f(int a) { return ' + 'a?' * n + '1' + ':2' * n + '; }',
    'conditional first': lambda n: 'int f(int a) { return ' + '(' * n + 'a' + '?1:2)' * n + '; }',
    'assignment': lambda n: 'int f(int a) { ' + 'a=' * n + '2; return a; }',
    'subscript': lambda n: 'int f(int *a) { return ' + 'a[' * n + '0' + ']' * n + '; }',
    'dereference': lambda n: 'int f(int ' + '*' * n + 'a) { return ' + '*' * n + 'a; }',
    'calls': lambda n: 'int g(int a){return a;} int f(int a) { return ' + 'g(' * n + 'a' + ')' * n + '; }',
    'calls of two': lambda n: 'int g(int a, int b){return a;} int f(int a) { return ' + 'g(a, ' * n + 'a' + ')' * n + '; }',
    'address': lambda n: 'int f(int a) { return ' + '*&' * n + 'a; }',
    'sizeof': lambda n: 'int f(int a) { return ' + 'sizeof ' * n + 'a; }',
    'sizeof parentheses': lambda n: 'int f(int a) { return ' + 'sizeof(' * n + 'a' + ')' * n + '; }',
    'dimensions': lambda n: 'int f(void) { char a' + '[1]' * n + '; return sizeof(a); }',
    'declarator parentheses': lambda n: 'int f(void) { char ' + '(' * n + 'a' + ')' * n + '; return sizeof(a); }',
    'pointers to functions': lambda n: 'int ' + '(*' * n + 'f' + ')(int)' * n + '; int g(void){return 1;}',
    'function parameters': lambda n: 'int f(' + 'int g(' * n + 'int' + ')' * n + '); int h(void){return 1;}',
    'structs by name': lambda n: ''.join('struct s%d { %s };\n' % (i, 'int a;' if i == 0 else 'struct s%d m;' % (i - 1)) for i in range(n)) + 'int f(void) { return sizeof(struct s%d); }' % (n - 1),
    'structs in structs': lambda n: ''.join('struct s%d { ' % i for i in range(n)) + 'int a; ' + '} m; ' * (n - 1) + '}; int f(void){return 1;}',
    'initializer braces': lambda n: 'int a' + '[1]' * n + ' = ' + '{' * n + '1' + '}' * n + '; int f(void){return 1;}',
    'local initializer braces': lambda n: 'int f(void){int a' + '[1]' * n + ' = ' + '{' * n + '1' + '}' * n + '; return 1;}',
    'open parentheses': lambda n: 'int f(int a) { return ' + '(' * n,
    'open braces': lambda n: 'int f(int a) { ' + '{' * n,
    'open brackets': lambda n: 'int f(int a) { a' + '[' * n,
    'closing braces': lambda n: 'int f(int a) { return a; ' + '}' * n,
    'member access': lambda n: 'struct s { struct s *n; int v; }; int f(struct s *p) { return p' + '->n' * n + '->v; }',
    'increments of a subscript': lambda n: 'int f(int *a) { return a[' * 1 + 'a[' * n + '0' + ']++' * n + ']; }',
}
SIZE = {
    'members': lambda n: 'struct s {' + ''.join('int m%d;' % i for i in range(n)) + '}; int f(void){ struct s a; a.m%d=1; return a.m%d;}' % (n - 1, n - 1),
    'statements': lambda n: 'int f(int a) { ' + 'a=a+1;' * n + 'return a; }',
    'locals': lambda n: 'int f(void) { ' + ''.join('int a%d=%d;' % (i, i) for i in range(n)) + 'return a%d; }' % (n - 1),
    'globals': lambda n: ''.join('int a%d=%d;\n' % (i, i) for i in range(n)) + 'int f(void) {return a%d; }' % (n - 1),
    'functions': lambda n: ''.join('int f%d(int a) { return a+%d; }\n' % (i, i) for i in range(n)),
    'strings': lambda n: 'char *f(int a) { char *s; ' + ''.join('s="s%d";' % i for i in range(n)) + 'return s; }',
    'cases': lambda n: 'int f(int a) { switch(a) {' + ''.join('case %d: return %d;' % (i, i + 1) for i in range(n)) + '} return 0; }',
    'initializers': lambda n: 'int v[%d]={' % n + ','.join(str(i) for i in range(n)) + '}; int f(void){return v[0];}',
    'local initializers': lambda n: 'int f(void){int v[%d]={' % n + ','.join(str(i) for i in range(n)) + '};return v[0];}',
    'zeroed locals': lambda n: 'int f(void){int v[%d]={1};return v[0];}' % n,
    'zeroed globals': lambda n: 'int v[%d]={1};int f(void){return v[0];}' % n,
    'large array': lambda n: 'char v[%d];int f(void){return v[0];}' % (n * 100000),
    'enumerators': lambda n: 'enum e {' + ','.join('k%d' % i for i in range(n)) + '}; int f(void){return k%d;}' % (n - 1),
    'typedefs': lambda n: 'typedef int t0;' + ''.join('typedef t%d t%d;' % (i, i + 1) for i in range(n)) + 't%d f(void){return 1;}' % n,
    'parameters': lambda n: 'int f(' + ','.join('int a%d' % i for i in range(n)) + '){return a%d;} int g(void){return f(%s);}' % (n - 1, ','.join(['1'] * n)),
    'string length': lambda n: 'char *f(void) { return "' + 'a' * n * 20 + '"; }',
    'identifier length': lambda n: 'int ' + 'a' * n * 20 + '(void) { return 1; }',
    'digits': lambda n: 'int f(void) { return ' + '0' * n * 20 + '1; }',
    'conditions': lambda n: 'int f(int a) { if (' + '||'.join('a==%d' % i for i in range(n)) + ') return 1; return 0; }',
    'branches': lambda n: 'int f(int a) { while(a) { ' + 'if (a) { a=a-1; } else { a=a+1; }' * n + ' } return a; }',
    'loops': lambda n: 'int f(int a) { ' + 'while(a) { a=a-1; }' * n + ' return a; }',
    'calls': lambda n: 'int g(int a) { return a; } int f(int a) { ' + 'a=g(a);' * n + ' return a; }',
    'sum of calls': lambda n: 'int g(int a) { return a; } int f(int a) { return g(a)' + '+g(a)' * n + '; }',
    'empty statements': lambda n: 'int f(int a) { ' + ';' * n * 10 + ' return a; }',
    'empty lines': lambda n: '\n' * n * 10 + 'int f(int a) { return a; }',
    'errors': lambda n: 'int f(int a) { ' + 'b=1;' * n + ' return a; }',
    'declarators': lambda n: 'int f(void) { int ' + ','.join('a%d' % i for i in range(n)) + '; return 1; }',
    'tags': lambda n: ''.join('struct s%d { int a; };' % i for i in range(n)) + 'int f(void) { return sizeof(struct s%d); }' % (n - 1),
    'nested names': lambda n: 'int f(int a) { ' + ''.join('{ int a = %d;' % i for i in range(n)) + 'a = a + 1;' + '}' * n + ' return a; }',
    'sibling blocks': lambda n: 'int f(int a) { ' + ''.join('{ int b = %d; a = a + b; }' % i for i in range(n)) + ' return a; }',
}


def part_size(tier):
    for k, g in NEST.items():
        for n in [1, 2, 3, 5, 8, 12, 16, 20, 24, 28, 32, 40, 48, 56, 63, 64, 65, 80, 100, 127, 128, 129, 150, 200, 255, 256, 257, 300, 400, 500] + ([700, 1000] if tier == 'thorough' else []):
            yield g(n), 'nesting: %s, %d' % (k, n)
    for k, g in SIZE.items():
        for n in [1, 2, 3, 5, 8, 13, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 200, 255, 256, 257, 400, 500, 511, 512, 513, 800, 1000, 1023, 1024, 1025] + ([1500, 2000, 2047, 2048, 2049, 3000] if tier == 'thorough' else []):
            yield g(n), 'size: %s, %d' % (k, n)


def part_product(tier):
    """every kind of nesting within every other"""
    ex = [('(%s)', 'a'), ('-%s', 'a'), ('!%s', 'a'), ('(int)%s', 'a'), ('p[%s]', 'a'), ('g(%s)', 'a'), ('*(p + %s)', 'a'), ('(a && %s)', 'a'), ('(a ? %s : 1)', 'a'), ('(a ? 1 : %s)', 'a'), ('(%s ? 1 : 2)', 'a'), ('(a = %s)', 'a'), ('sizeof(%s)', 'a'), ('h(a, %s)', 'a'), ('(%s || a)', 'a'), ('~%s', 'a'), ('(a + %s)', 'a'), ('(%s + a)', 'a'), ('(%s << 1)', 'a')]
    for n in (10, 20, 40) if tier != 'thorough' else (10, 20, 40, 80, 160):
        for (x, _), (y, _) in itertools.product(ex, repeat=2):
            e = 'a'
            for _ in range(n):
                e = x % (y % e)
            yield 'int g(int a) { return a; } int h(int a, int b) { return b; } int f(int a, int *p) { return %s; }' % e, 'nesting of pairs, %d: %s %s' % (n, x, y)
    sx = ['{ %s }', 'if (a) %s', 'if (a) a = 1; else %s', 'while (a) %s', 'for (;a;) %s', 'switch (a) { case 1: %s }', 'switch (a) { default: %s }', '{ int b = 1; %s }', 'for (int i = 0; i < a; i++) { %s }', '{ struct s { int m; } q; q.m = 1; %s }', 'if (a) { %s } else { a = 2; }']
    for n in (10, 20, 40) if tier != 'thorough' else (10, 20, 40, 80, 160):
        for x, y in itertools.product(sx, repeat=2):
            e = 'a = 0;'
            for _ in range(n):
                e = x % (y % e)
            yield 'int f(int a) { %s return a; }' % e, 'nesting of pairs, %d: %s %s' % (n, x, y)


def _time_worker(job):
    _, items = job
    st = dict(states=0, transitions=0, executed=0)
    fails = []
    for s, tag, fid in items:
        if harness.give_up():
            break
        r = serve([s], 'plain', tmo=45)[0]
        st['states'] += 1
        st['executed'] += 1
        st['transitions'] += len(s)
        if not (r.ok or r.diag):
            fails.append(dict(program=s[:20000], detail='%s: neither compiled nor diagnosed within 45 s and 4 GB' % tag, what=r.show(), tag=tag, finding_id=fid))
        harness.trouble(fails)
    return st, fails, dict(program=items[0][0][:300], what=items[0][1])


def part_known(tier):
    # the left operand is expanded twice at every level: see known_findings.json
    yield 'int f(int *a) { ' + 'a[' * 40 + '0' + ']+=1' * 40 + '; return 0; }', 'compound assignment in the subscript of a compound assignment, 40 levels', 'nested-compound'


def run_time(rep, name, items, n):
    tot, fails, samples = {}, [], []
    for st, fl, smp in harness._spread(_time_worker, enumerate(chunks(((x[0], x[1], x[2] if len(x) > 2 else None) for x in items), n)), lambda: sum(1 for f in fails if not f['finding_id']) >= 10):
        for k, v in st.items():
            tot[k] = tot.get(k, 0) + v
        fails += fl
        if smp and len(samples) < 2:
            samples.append(smp)
    rep.add(name, tot, fails, samples)
    if os.environ.get('MC_DEBUG'):
        print(name, tot, '%.1fs' % (harness.time.time() - harness.T0))


ASSUMPTIONS = ['AddressSanitizer (gcc) and MemorySanitizer (clang) report every access outside live objects and every use of uninitialised values on the executed paths']


def run(rep, tier, only):
    build_ucserv('plain')
    build_ucserv('asan')
    build_ucserv('msan')

    def want(n):
        return (not only or n in only) and len(rep.new_fails()) < 10
    if want('size'):
        run_time(rep, 'size', part_size(tier), 8)
    if want('product'):
        run_time(rep, 'product', part_product(tier), 30)
    if want('known'):
        run_time(rep, 'known', part_known(tier), 1)
    if want('nasty'):
        run_san(rep, 'nasty', part_nasty(tier), ('asan', 'msan'))
    if want('tokens'):
        run_san(rep, 'tokens', short_tokens(tier), ('asan', 'msan'))
    for m, p in CORPORA:
        if m == 'p12' and p == 'v:tokens':
            continue
        if want('%s %s' % (m, p)):
            run_san(rep, '%s %s' % (m, p), part_gen(m, p, 'quick'), ('asan', 'msan') if tier == 'thorough' or p not in ('v:munch', 'v:bytes', 'v:mutate', 'v:place', 'v:binary') else ('asan',))
    if want('programs'):
        run_san(rep, 'programs', all_batches('quick', None if tier == 'thorough' else 48), ('asan', 'msan') if tier == 'thorough' else ('asan',), 4)
    if tier == 'thorough' and want('tokens all'):
        run_san(rep, 'tokens all', part_gen('p12', 'v:tokens', 'quick'), ('asan', 'msan'))
