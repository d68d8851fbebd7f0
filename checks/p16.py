"""The output is a function of the source text: builds, heap contents, addresses, environment, directory, names, descriptors, limits and
earlier runs make no difference. Every configuration of the list on every program of the corpora."""
import importlib
import itertools
import os
import resource
import subprocess
import harness
from harness import *
import p14
import p15
from p15 import Part, Scratch, put, get, go, spread, nobody

BUILDS = {'o0': ('gcc', ['-O0'], {'MALLOC_PERTURB_': '90'}), 'o3': ('gcc', ['-O3'], {'MALLOC_PERTURB_': '165', 'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0'}),
          'clang': ('clang', ['-O2'], {'MALLOC_PERTURB_': '255', 'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0'}), 'asan': ('gcc', ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer'], {})}
for k, (cc, fl, _) in BUILDS.items():
    if k not in harness.SAN:
        harness.SAN[k] = (cc, fl, 20, 4096)


def _build_worker(job):
    _, items = job
    st = dict(states=0, transitions=0, executed=0)
    fails = []
    srcs = [s for s, _, _ in items]
    kinds = items[0][2]
    old = dict(os.environ)
    if harness.give_up():
        return st, fails, []
    res = {'plain': serve(srcs, 'plain', tmo=20)}
    if any(r.kind >= 2 for r in res['plain']):      # time limits are P14's matter
        keep = [i for i, r in enumerate(res['plain']) if r.kind < 2]
        items = [items[i] for i in keep]
        srcs = [srcs[i] for i in keep]
        res['plain'] = [res['plain'][i] for i in keep]
        if not items:
            return st, fails, []
    for k in kinds:
        os.environ.update(BUILDS[k][2])
        try:
            res[k] = serve(srcs, k, tmo=40)
        finally:
            for v in BUILDS[k][2]:
                os.environ.pop(v, None)
                if v in old:
                    os.environ[v] = old[v]
    for i, (s, tag, _) in enumerate(items):
        r = res['plain'][i]
        st['states'] += 1
        st['transitions'] += 1 + len(kinds)
        st['executed'] += 1 + len(kinds)
        for k in kinds:
            q = res[k][i]
            if (r.kind, r.code, r.asmlen, r.hash, r.err if r.asmlen < 0 else b'') != (q.kind, q.code, q.asmlen, q.hash, q.err if q.asmlen < 0 else b''):
                if q.kind >= 2:
                    continue
                fails.append(dict(program=s, detail='the gcc -O1 build: %s, hash %x; the %s build: %s, hash %x' % (r.show(), r.hash, k, q.show(), q.hash), tag=tag))
                break
    harness.trouble(fails)
    return st, fails, [dict(program=items[0][0][:300], builds=['plain'] + list(kinds))]


def texts(tier):
    """sources to be refused or accepted"""
    q = ('o0', 'o3', 'clang') if tier == 'thorough' else ('o0', 'clang')
    for s, t in itertools.islice(p14.part_nasty(tier), None):
        yield s, t, q
    for m, p in [('p12', 'v:specs'), ('p13', 'v:unary'), ('p13', 'v:calls'), ('p13', 'v:decl'), ('p13', 'v:convert'), ('p10', None)] + ([('p11', 'v:ids'), ('p11', 'v:chars'), ('p13', 'v:binary'), ('p13', 'v:place')] if tier == 'thorough' else []):
        for x in p14.part_gen(m, p, 'quick'):
            yield x[0], x[1], q


def progs(tier):
    q = ('o0', 'o3', 'clang', 'asan') if tier == 'thorough' else ('o0', 'clang')
    for s, t in p14.all_batches('quick', None if tier == 'thorough' else 150):
        yield s, t, q
    for s, t in itertools.chain(p14.part_product('quick'), (x for x in p14.part_size('quick') if len(x[0]) < 20000)):
        yield s, t, q


# ---------------------------------------------------------------- process configurations
def lim(what, n):
    def f():
        h = resource.getrlimit(what)[1]
        resource.setrlimit(what, (n if h == resource.RLIM_INFINITY else min(n, h), h))
    return f


def close(*fds):
    def f():
        for x in fds:
            os.close(x)
    return f


BASE = {'PATH': '/usr/bin:/bin'}
ENVS = [{}, dict(BASE, LANG='de_DE.UTF-8'), dict(BASE, LC_ALL='C.UTF-8'), dict(BASE, LC_ALL='tr_TR.UTF-8', LANGUAGE='tr'), dict(BASE, POSIXLY_CORRECT='1'), dict(BASE, MALLOC_PERTURB_='1'), dict(BASE, MALLOC_PERTURB_='85'),
        dict(BASE, MALLOC_PERTURB_='170'), dict(BASE, MALLOC_PERTURB_='255'), dict(BASE, MALLOC_CHECK_='3'), dict(BASE, MALLOC_TOP_PAD_='0'), dict(BASE, MALLOC_MMAP_THRESHOLD_='64'), dict(BASE, GLIBC_TUNABLES='glibc.malloc.tcache_count=0'), dict(BASE, GLIBC_TUNABLES='glibc.malloc.tcache_count=0', MALLOC_PERTURB_='255'), dict(BASE, GLIBC_TUNABLES='glibc.malloc.tcache_count=0', MALLOC_PERTURB_='254'), dict(BASE, TZ='Asia/Tokyo'),
        dict(BASE, HOME='/nonexistent'), dict(BASE, TERM='dumb', NO_COLOR='1', COLUMNS='3'), dict(BASE, TMPDIR='/nonexistent', TEMP='/x', TMP='/x'), dict(BASE, DEBUG='1', VERBOSE='1', CFLAGS='-O3', UMLCC='1', UMLCC_FLAGS='-x'), dict(BASE, X='y' * 100000), {'E%d' % i: 'v' * i for i in range(300)},
        dict(BASE, SOURCE_DATE_EPOCH='0'), dict(BASE, USER='x', LOGNAME='x', PWD='/wrong', OLDPWD='/'), dict(BASE, C_INCLUDE_PATH='/', LIBRARY_PATH='/', GCC_EXEC_PREFIX='/')]
PRES = [('umask 077', lambda: os.umask(0o077)), ('umask 0', lambda: os.umask(0)), ('stdin closed', close(0)), ('stdout closed', close(1)), ('stderr closed', close(2)), ('stdin and stdout closed', close(0, 1)), ('stdin and stderr closed', close(0, 2)), ('all closed', close(0, 1, 2)),
        ('stack of 1 MB', lim(resource.RLIMIT_STACK, 1 << 20)), ('stack of 64 MB', lim(resource.RLIMIT_STACK, 64 << 20)), ('memory of 256 MB', lim(resource.RLIMIT_AS, 256 << 20)), ('16 descriptors', lim(resource.RLIMIT_NOFILE, 16)), ('nice', lambda: os.nice(5)), ('session', os.setsid), ('nobody', nobody)]


def _env_worker(job):
    _, items = job
    P = Part()
    exe = harness._G['exe']
    for src, tag in items:
        with Scratch() as d:
            os.chmod(d, 0o777)
            put(d + '/u.c', src)
            rc0, _, _ = go(['u.c'], d, env=BASE)
            want = get(d + '/u.s') if os.path.exists(d + '/u.s') else None

            def one(what, args, outp, cwd=d, **kw):
                for p in (outp,):
                    if os.path.lexists(p):
                        os.unlink(p)
                try:
                    rc, _, _ = go(args, cwd, **kw)
                except (PermissionError, subprocess.SubprocessError):
                    return
                got = get(outp) if os.path.exists(outp) else None
                P.case('%s: %s' % (tag, what), None if (rc, got) == (rc0, want) else 'exit status %d and %s instead of %d and %s; program %r' % (rc, got and '%d bytes of output' % len(got), rc0, want and '%d bytes' % len(want), src[:300]))
            for i, e in enumerate(ENVS):
                one('environment %r' % (dict(list(e.items())[:3]) if len(str(e)) < 300 else 'large'), ['u.c'], d + '/u.s', env=e)
            for n, f in PRES:
                if n == 'nobody' and os.path.lexists(d + '/u.s'):
                    os.unlink(d + '/u.s')
                one(n, ['u.c'], d + '/u.s', env=BASE, pre=f)
            os.makedirs(d + '/sub/deep', exist_ok=True)
            os.symlink('sub', d + '/link')
            for n in ('x.c', 'longer_name_of_the_file.c', 'main.c', 'a.b.c', '.c', 'x y.c', 'int.c', '"q".c', '%s.c'):
                put(d + '/sub/' + n, src)
                for w, a, c in (('name', 'sub/' + n, d), ('absolute', d + '/sub/' + n, '/'), ('inside', n, d + '/sub'), ('from below', '../' + n, d + '/sub/deep'), ('through a link', 'link/./' + n, d)):
                    one('%s %r' % (w, n), [a], d + '/sub/' + n[:-1] + 's', cwd=c, env=BASE)
            os.utime(d + '/u.c', (0, 0))
            one('old source', ['u.c'], d + '/u.s', env=BASE)
            for a0 in ('', 'x' * 1000, '/usr/bin/gcc', '-c'):
                p = subprocess.run([a0, 'u.c'], executable=exe, cwd=d, env=BASE, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                got = get(d + '/u.s') if os.path.exists(d + '/u.s') else None
                P.case('%s: argument zero %r' % (tag, a0[:20]), None if (p.returncode, got) == (rc0, want) else 'differs')
            for k in range(12):
                one('run %d' % k, ['u.c'], d + '/u.s', env=BASE)
            # an output of the same run is the source of nothing: compile again over it
            rc, _, _ = go(['u.c'], d, env=BASE)
            P.case('%s: again over the output' % tag, None if rc == rc0 and (get(d + '/u.s') if os.path.exists(d + '/u.s') else None) == want else 'differs')
    return P.st, P.fails, P.samples[:1]


def env_corpus(tier):
    root = os.path.join(harness.REPO, 'test-fixtures')
    n = 0
    for base, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith('.c'):
                with open(os.path.join(base, f), 'rb') as h:
                    yield h.read(), 'fixture ' + f
    for k, g in list(p14.SIZE.items()) + list(p14.NEST.items()):
        yield g(20).encode(), k
    yield p15.GOOD, 'good'
    for k, v in p15.BAD.items():
        yield v, 'bad ' + k


ASSUMPTIONS = ['memory is not exhausted']


def run(rep, tier, only):
    harness._G['exe'] = build_umlcc()
    os.chmod(workdir(), 0o711)
    kinds = set(['plain', 'o0', 'o3', 'clang', 'asan'] if tier == 'thorough' else ['plain', 'o0', 'clang'])
    for k in sorted(kinds):
        build_ucserv(k)
    for n, f in (('texts', lambda: spread(rep, 'texts', _build_worker, texts(tier), 200)), ('programs', lambda: spread(rep, 'programs', _build_worker, progs(tier), 8)),
                 ('environment', lambda: spread(rep, 'environment', _env_worker, env_corpus(tier), 3))):
        if (not only or n in only) and len(rep.new_fails()) < 10:
            f()
