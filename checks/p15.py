"""The command line and the files: a run either writes the complete output and says so, or fails visibly; it touches nothing else.
Explored: argument vectors and names, states of the source and the output path, the graph of directory states under edits and
compilations, every file size limit, every failing system call, a kill before every system call, and all interleavings of two
compilers with two switches at system call granularity."""
import itertools
import os
import resource
import shutil
import signal
import stat
import subprocess
import tempfile
import harness
from harness import *

GOOD = b'int main(void) { return 1; }\n'
GOOD2 = b'int g;\nint h(int a, int b) {\n  while (a < b) { a = a + g; }\n  return a;\n}\n'
LONG = b''.join(b'int f%d(int a, int *p) { if (a) { p[a] = a + %d; } return a * p[0] + "xyz"[1]; }\n' % (i, i) for i in range(60))
BAD = {'lex': b'int main(void) { return 1 @ 2; }\n', 'parse': b'int main(void) { return 1 }\n', 'sema': b'int main(void) { return x; }\n',
       'late': GOOD2 + b'int k(void) { return nothere; }\n', 'empty': b'', 'nul': b'int main(void) { return 1; }\0', 'reg': b'int f(int a,int *p){return ' +
       b'(a+p[0])*((a-p[1])+'.replace(b'X', b'') * 30 + b'1' + b')' * 30 + b';}\n'}
E = {}


def expect():
    """what the compiler writes for the good sources, compiled once in an empty directory"""
    for n, s in (('good', GOOD), ('good2', GOOD2), ('long', LONG)):
        with Scratch() as d:
            put(d + '/u.c', s)
            rc, out, err = go(['u.c'], d)
            if rc or not os.path.exists(d + '/u.s'):
                return 'refused: %r %s' % (s[:200], err[-200:])
            E[n] = get(d + '/u.s')
    return None


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='cl', dir=workdir())
        os.chmod(self.d, 0o755)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def put(p, b):
    with open(p, 'wb') as f:
        f.write(b)


def get(p):
    with open(p, 'rb') as f:
        return f.read()


def go(args, cwd, pre=None, env=None, exe=None, **kw):
    kw.setdefault('stdin', subprocess.DEVNULL)
    try:
        p = subprocess.run([exe or harness._G['exe']] + list(args), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           preexec_fn=pre, env=env, timeout=20, **kw)
    except subprocess.TimeoutExpired:
        return -99, b'', b'timed out'
    return p.returncode, p.stdout, p.stderr


def snap(d):
    """everything below d: name -> (kind, mode, content)"""
    out = {}
    for base, ds, fs in os.walk(os.fsencode(d)):
        for n in ds + fs:
            p = os.path.join(base, n)
            st = os.lstat(p)
            k = stat.S_IFMT(st.st_mode)
            c = os.readlink(p) if stat.S_ISLNK(st.st_mode) else (get(p) if stat.S_ISREG(st.st_mode) else b'')
            out[os.path.relpath(p, os.fsencode(d))] = (k, stat.S_IMODE(st.st_mode), c)
    return out


def short(x):
    return (x[:60] + b'...') if isinstance(x, bytes) and len(x) > 60 else x


def diff(a, b):
    return {k: (tuple(map(short, a.get(k, ('absent',)))), tuple(map(short, b.get(k, ('absent',))))) for k in set(a) | set(b) if a.get(k) != b.get(k)}


def judge(rc, out, err, before, after, outname, want):
    """want: bytes of the output, or None for a refusal. outname: path of the output relative to the scratch directory"""
    d = diff(before, after)
    if want is not None:
        if rc != 0:
            return 'exit status %d, %r' % (rc, err[-200:])
        got = after.get(outname)
        if got is None or got[2] != want:
            return 'output file %r: %r' % (outname, None if got is None else (len(got[2]), got[2][-80:]))
        d.pop(outname, None)
        if d:
            return 'other files changed: %r' % d
        return None
    if rc != 1:
        return 'exit status %d of a run that must fail' % rc
    if b'error' not in err:
        return 'no error message: %r' % err[-200:]
    if outname in d and outname not in after and before[outname][0] == stat.S_IFREG:
        d.pop(outname)          # removing an outdated output is as good as keeping it
    if d:
        return 'files changed by a run that failed: %r' % d
    return None


class Part:
    def __init__(self):
        self.st = dict(states=0, transitions=0, executed=0)
        self.fails = []
        self.samples = []

    def case(self, what, bad, n=1):
        self.st['states'] += 1
        self.st['transitions'] += n
        self.st['executed'] += 1
        if len(self.samples) < 2:
            self.samples.append(dict(case=what))
        if bad and len(self.fails) < 20:
            self.fails.append(dict(program=what, detail='%s: %s' % (what, bad)))


# ---------------------------------------------------------------- names and argument vectors
NAMES = [b'a.c', b'.c', b'a.b.c', b'a.c.c', b'a..c', b'..c', b'...c', b'a b.c', b'-.c', b'-o.c', b'--help.c', b'\xc3\xa4.c', b'\xff.c', b'a.s.c', b's.c', b'c.c', b'c.s.c',
         b'A.c', b'%s.c', b'%n%d.c', b'a\n.c', b'a\\.c', b"a'.c", b'$x.c', b'*.c', b'x' * 253 + b'.c', b'x' * 127 + b'.c', b'x' * 128 + b'.c', b'x' * 100 + b'.' + b'y' * 100 + b'.c',
         b'a', b'c', b'a.', b'.', b'a.C', b'a.cc', b'a.cpp', b'a.c.h', b'a.h', b'a.s', b'a.o', b'ac', b'a.c ', b'a.c.', b'a,c', b'a.cx', b'a.xc', b'a.i', b'.cc', b'a.c.s', b'a.c~', b'a.c.C', b'a.\xc3\xa7', b'a.c\n', b'a.c.txt', b'c.a', b'a.1c', b'a.c1']
DIRS = [b'', b'./', b'd/', b'./d/', b'd/../d/', b'd.c/', b'd.s/', b'.d/', b'd.x.c/e.s/', b'ABS', b'd//', b'-d/', b'dd/' * 20]
ARGVS = [[], [b'a.c', b'b.c'], [b'a.c', b'a.c'], [b'-o', b'a.c'], [b'a.c', b'-o', b'b.s'], [b'a.c', b''], [b'', b'a.c'], [b'a.c', b'b.c', b'c.c'], [b'--version', b'a.c'], [b'a.c'] * 50]
BADARG = [b'', b'missing.c', b'no/such.c', b'a.c/', b'a.c/.c', b'd.c', b'd.c/', b'/', b'.', b'..', b'./', b'--help', b'-', b'--version', b'-h', b'x' * 5000 + b'.c', b'missing', b'loop.c', b'dangling.c']


def names(rep, tier):
    P = Part()
    for dn in DIRS:
        for n in NAMES:
            for kind, src in (('good2', GOOD2), ('bad', BAD['late'])):
                with Scratch() as d:
                    bd = os.fsencode(d)
                    rel = b'' if dn == b'ABS' else dn
                    full = bd + b'/' + rel
                    os.makedirs(full, exist_ok=True)
                    arg = (bd + b'/' + n) if dn == b'ABS' else dn + n
                    if n == b'.':
                        continue
                    put(full + b'/' + n, src)
                    other = full + b'/other.s'
                    put(other, b'keep')
                    before = snap(d)
                    rc, out, err = go([arg], d)
                    outp = os.path.relpath(os.path.normpath(full + b'/' + n[:-1] + b's'), bd)
                    good = n.endswith(b'.c') and kind == 'good2'
                    P.case('argument %r, %s source' % (arg[-80:], kind), judge(rc, out, err, before, snap(d), outp, E['good2'] if good else None))
    for av in ARGVS + [[b] for b in BADARG]:
        for existing in (False, True):
            with Scratch() as d:
                put(d + '/a.c', GOOD)
                put(d + '/b.c', GOOD)
                os.mkdir(d + '/d.c')
                os.symlink('loop.c', d + '/loop.c')
                os.symlink('nowhere', d + '/dangling.c')
                if existing:
                    put(d + '/a.s', b'old')
                    put(d + '/b.s', b'old')
                before = snap(d)
                rc, out, err = go(av, d)
                P.case('arguments %r' % ([a[-40:] for a in av][:4],), judge(rc, out, err, before, snap(d), b'-', None))
    rep.add('names', P.st, P.fails, P.samples)


# ---------------------------------------------------------------- states of source and output paths
def nobody():
    os.setgroups([])
    os.setgid(65534)
    os.setuid(65534)


def paths(rep, tier):
    P = Part()
    srcs = ['regular', 'symlink', 'symlink dir', 'readonly', 'hardlink', 'directory', 'missing', 'fifo']
    outs = ['absent', 'empty', 'shorter', 'longer', 'same', 'readonly', 'symlink', 'dangling', 'dir', 'full', 'symlink loop', 'no dir']
    contents = [('good', GOOD), ('good2', GOOD2), ('long', LONG)] + [(k, v) for k, v in BAD.items()]
    users = ['root']
    try:
        with Scratch() as d:
            put(d + '/a.c', GOOD)
            os.chmod(d, 0o777)
            os.chmod(workdir(), 0o711)
            if subprocess.run(['/bin/true'], cwd=d, preexec_fn=nobody).returncode == 0 and go(['a.c'], d, nobody)[0] == 0:
                users.append('nobody')
    except (OSError, PermissionError, subprocess.SubprocessError):
        pass
    for so, ou, (cn, c), us in itertools.product(srcs, outs, contents, users):
        if so == 'fifo':
            continue
        with Scratch() as d:
            os.chmod(d, 0o777)
            w = d + '/w'
            os.mkdir(w)
            os.mkdir(d + '/o')
            for x in (w, d + '/o'):
                os.chmod(x, 0o777)
            want = E.get(cn)
            if so in ('regular', 'readonly'):
                put(w + '/a.c', c)
            elif so == 'symlink':
                put(d + '/o/real.txt', c)
                os.symlink('../o/real.txt', w + '/a.c')
            elif so == 'symlink dir':
                put(d + '/o/a.c', c)
                os.rmdir(w)
                os.symlink('o', w)
            elif so == 'hardlink':
                put(d + '/o/x', c)
                os.link(d + '/o/x', w + '/a.c')
            elif so == 'directory':
                os.mkdir(w + '/a.c')
                want = None
            elif so == 'missing':
                want = None
            if so == 'readonly':
                os.chmod(w + '/a.c', 0o444)
            outp = b'w/a.s' if so != 'symlink dir' else b'o/a.s'
            ap = d + '/' + outp.decode()
            target = None
            if ou in ('empty', 'shorter', 'longer', 'same', 'readonly'):
                put(ap, {'empty': b'', 'shorter': b'x', 'longer': b'y' * 100000, 'same': E.get(cn, b'old'), 'readonly': b'locked'}[ou])
                os.chmod(ap, 0o666)
            if ou == 'readonly':
                os.chmod(ap, 0o444)
                if us == 'nobody':
                    if want is not None:
                        # replacing the file instead of writing it is possible in a writable directory
                        target = 'either'
            elif ou == 'symlink':
                put(d + '/o/t', b'old target')
                os.chmod(d + '/o/t', 0o666)
                os.symlink(d + '/o/t', ap)
                target = b'o/t'
            elif ou == 'dangling':
                os.symlink(d + '/o/new', ap)
                target = b'o/new'
            elif ou == 'dir':
                os.mkdir(ap)
                want = None
            elif ou == 'full':
                os.symlink('/dev/full', ap)
                want = None
            elif ou == 'symlink loop':
                os.symlink('a.s', ap)
                target = 'either'
            elif ou == 'no dir':
                if us == 'root' or so == 'symlink dir':
                    continue
                os.chmod(w, 0o555)       # no entry can be made
                want = None
            before = snap(d)
            rc, out, err = go(['w/a.c'], d, nobody if us == 'nobody' else None)
            after = snap(d)
            what = 'source %s, output path %s, content %s, user %s' % (so, ou, cn, us)
            if want is not None and target is not None:
                # what a name that is a link comes to mean is left open: the file the name leads to must hold the output, or the run fails
                got = None
                try:
                    got = get(ap)
                except OSError:
                    pass
                bad = None
                if rc == 0:
                    if got != want:
                        bad = 'exit status 0 but the output is %r' % (got if got is None else got[:80])
                elif rc != 1 or b'error' not in err:
                    bad = 'exit status %d, %r' % (rc, err[-200:])
                elif target != 'either':
                    bad = 'refused: %r' % err[-200:]
                if before.get(b'w/a.c') != after.get(b'w/a.c') or before.get(b'o/real.txt') != after.get(b'o/real.txt') or before.get(b'o/a.c') != after.get(b'o/a.c'):
                    bad = 'the source changed'
            else:
                bad = judge(rc, out, err, before, after, outp, want)
            os.chmod(d + '/w', 0o755)
            P.case(what, bad)
    rep.add('paths', P.st, P.fails, P.samples)


# ---------------------------------------------------------------- the graph of directory states
def graph(rep, tier):
    """state: contents of a.c, b.c, a.s, b.s. Every state that edits and compilations reach; both compilations in every state"""
    P = Part()
    S = {'none': None, 'g1': GOOD, 'g2': GOOD2, 'bad': BAD['late'], 'bad2': BAD['parse']}
    O = {'none': None, 'o1': E['good'], 'o2': E['good2'], 'junk': b'junk\n' * 100}
    asm = {'g1': 'o1', 'g2': 'o2'}
    start = ('none', 'none', 'none', 'none')
    seen, todo, kept = {start}, [start], {}
    while todo:
        s = todo.pop()
        nxt = []
        for i in (0, 1):
            for k in S:
                nxt.append(s[:i] + (k,) + s[i + 1:])
        for i in (2, 3):
            for k in ('none', 'junk'):
                nxt.append(s[:i] + (k,) + s[i + 1:])
        for i, n in ((0, 'a'), (1, 'b')):
            with Scratch() as d:
                for j, nm in enumerate(('a.c', 'b.c', 'a.s', 'b.s')):
                    c = (S if j < 2 else O)[s[j]]
                    if c is not None:
                        put(d + '/' + nm, c)
                before = snap(d)
                rc, out, err = go([n + '.c'], d)
                after = snap(d)
                bad = judge(rc, out, err, before, after, (n + '.s').encode(), O[asm[s[i]]] if s[i] in asm else None)
                P.case('state a.c=%s b.c=%s a.s=%s b.s=%s, compile %s.c' % (s + (n,)), bad)
                t = list(s)
                if s[i] in asm:
                    t[2 + i] = asm[s[i]]
                elif (n + '.s').encode() not in after:
                    t[2 + i] = 'none'
                nxt.append(tuple(t))
        for t in nxt:
            P.st['transitions'] += 1
            if t not in seen:
                seen.add(t)
                todo.append(t)
        if len(P.fails) >= 10:
            break
    rep.add('graph', P.st, P.fails, P.samples)


# ---------------------------------------------------------------- faults
def _limit_worker(job):
    _, items = job
    P = Part()
    for cn, c, lim in items:
        want = E[cn]
        with Scratch() as d:
            put(d + '/a.c', c)

            def pre():
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
            p = subprocess.Popen([harness._G['exe'], 'a.c'], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre)
            try:
                out, err = p.communicate(timeout=20)
            except subprocess.TimeoutExpired:
                p.kill()
                out, err = p.communicate()
            rc = p.returncode
            got = get(d + '/a.s') if os.path.exists(d + '/a.s') else None
            bad = None
            if lim >= len(want):
                if rc != 0 or got != want:
                    bad = 'exit status %d, output %s bytes' % (rc, got if got is None else len(got))
            elif rc != 1 or b'error' not in err:
                bad = 'the output was cut off at byte %d of %d, yet exit status %d, message %r' % (lim, len(want), rc, err[-100:])
            if get(d + '/a.c') != c:
                bad = 'source changed'
            P.case('no more than %d bytes can be written, %s' % (lim, cn), bad)
    return P.st, P.fails, P.samples[:1]


def spread(rep, name, worker, items, n):
    P = Part()
    for st, fl, smp in harness._spread(worker, enumerate(chunks(items, n)), lambda: len(P.fails) >= 10):
        for k, v in st.items():
            P.st[k] += v
        P.fails += fl
        harness.trouble(fl)
        P.samples += smp
    rep.add(name, P.st, P.fails, P.samples)
    if os.environ.get('MC_DEBUG'):
        print(name, P.st, '%.1fs' % (harness.time.time() - harness.T0))


def limits(rep, tier):
    def items():
        for cn, c in (('good', GOOD), ('good2', GOOD2), ('long', LONG)):
            n = len(E[cn])
            step = 1 if cn != 'long' or tier == 'thorough' else 13
            lims = set(range(0, n + 2, step)) | {n - 1, n, n + 1} | {k + e for k in range(0, n, 4096) for e in (-1, 0, 1) if 0 <= k + e}
            for lim in sorted(lims):
                yield cn, c, lim
    spread(rep, 'limits', _limit_worker, items(), 60)


FSCALLS = {0: 'read', 1: 'write', 2: 'open', 3: 'close', 4: 'stat', 5: 'fstat', 6: 'lstat', 8: 'lseek', 17: 'pread64', 18: 'pwrite64', 19: 'readv', 20: 'writev', 21: 'access',
           74: 'fsync', 75: 'fdatasync', 77: 'ftruncate', 82: 'rename', 86: 'link', 87: 'unlink', 257: 'openat', 262: 'newfstatat', 263: 'unlinkat', 264: 'renameat', 316: 'renameat2', 332: 'statx'}
ERRS = {'EIO': 5, 'ENOSPC': 28, 'EACCES': 13, 'EMFILE': 24, 'EINTR': 4, 'EROFS': 30}
INPUTS = [('good', GOOD), ('good2', GOOD2), ('long', LONG), ('late', BAD['late'])]


def trace_of(c):
    with Scratch() as d:
        put(d + '/a.c', c)
        p = subprocess.run([workdir() + '/ptsched', 'trace', workdir() + '/umlcc_static', 'a.c'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env={'PT_ERR': d + '/../pterr%d' % os.getpid()})
        if p.returncode:
            return None
        return [int(x) for x in p.stdout.split(b'\n')[0].split()]


def pt(args, d, tag):
    pre = d + '.err'
    try:
        w = subprocess.run([workdir() + '/ptsched'] + args, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env={'PT_ERR': pre}, timeout=30).stdout.split()
    except subprocess.TimeoutExpired:
        return {'A': (-99, b'timed out'), 'B': (-99, b'timed out')}
    res = {}
    for k in range(0, len(w) - 1, 2):
        res[w[k].decode()] = (int(w[k + 1]), get(pre + w[k].decode()) if os.path.exists(pre + w[k].decode()) else b'')
    for k in 'AB':
        if os.path.exists(pre + k):
            os.unlink(pre + k)
    return res


def _fault_worker(job):
    _, items = job
    P = Part()
    exe = workdir() + '/umlcc_static'
    for what, cn, c, spec, old in items:
        with Scratch() as d:
            put(d + '/a.c', c)
            if old is not None:
                put(d + '/a.s', old)
            put(d + '/b.c', b'keep')
            before = snap(d)
            rc, err = pt(['fault', ','.join('%d:%d' % x for x in spec), exe, 'a.c'], d, what)['A']
            after = snap(d)
            want = E.get(cn)
            df = diff(before, after)
            got = after.get(b'a.s')
            df.pop(b'a.s', None)
            bad = None
            if rc == 0:
                if want is None:
                    bad = 'exit status 0 for an ill-formed program'
                elif got is None or got[2] != want:
                    bad = 'exit status 0 but the output is %s' % ('missing' if got is None else '%d bytes instead of %d' % (len(got[2]), len(want)))
            elif rc != 1:
                bad = 'exit status %d' % rc
            elif b'error' not in err:
                bad = 'no error message'
            if df and not bad and set(df) & {b'a.c', b'b.c'}:
                bad = 'other files changed: %r' % df
            P.case('%s, %s' % (cn, what), bad)
    return P.st, P.fails, P.samples[:1]


def faults(rep, tier):
    def items():
        for cn, c in INPUTS:
            tr = trace_of(c)
            if tr is None:
                return
            fs = [(i + 1, FSCALLS[n]) for i, n in enumerate(tr) if n in FSCALLS]
            for i, nm in fs:
                for en, e in ERRS.items():
                    for old in (None, b'old output'):
                        yield 'call %d (%s) fails with %s' % (i, nm, en), cn, c, [(i, e)], old
            for (i, a), (j, b) in itertools.combinations(fs, 2):
                for e, f in itertools.product(ERRS.values(), repeat=2) if tier == 'thorough' else ((5, 5), (28, 28), (5, 28), (28, 5)):
                    yield 'calls %d (%s) and %d (%s) fail with %d, %d' % (i, a, j, b, e, f), cn, c, [(i, e), (j, f)], None
    spread(rep, 'faults', _fault_worker, items(), 40)


def _kill_worker(job):
    _, items = job
    P = Part()
    exe = workdir() + '/umlcc_static'
    for n, cn, c, n2, old in items:
        with Scratch() as d:
            put(d + '/a.c', c)
            put(d + '/b.s', b'keep')
            if old is not None:
                put(d + '/a.s', old)
            before = snap(d)
            pt(['kill', str(n), exe, 'a.c'], d, '')
            if n2:
                pt(['kill', str(n2), exe, 'a.c'], d, '')
            mid = snap(d)
            bad = None
            if mid.get(b'a.c') != before.get(b'a.c') or mid.get(b'b.s') != before.get(b'b.s'):
                bad = 'killed before call %d: other files changed' % n
            rc, out, err = go(['a.c'], d)
            after = snap(d)
            if not bad:
                want = E.get(cn)
                if want is not None:
                    if rc != 0 or after.get(b'a.s', (0, 0, None))[2] != want:
                        bad = 'a run after the kill: exit status %d, output %r' % (rc, after.get(b'a.s', (0, 0, b''))[2][-60:])
                elif rc != 1 or b'error' not in err or (b'a.s' in after and old is None):
                    bad = 'a run after the kill: exit status %d %r' % (rc, err[-100:])
            P.case('%s killed before system call %d%s' % (cn, n, ' and again before %d' % n2 if n2 else ''), bad)
    return P.st, P.fails, P.samples[:1]


def kills(rep, tier):
    def items():
        for cn, c in INPUTS:
            tr = trace_of(c)
            if tr is None:
                return
            for n in range(1, len(tr) + 2):
                for old in (None, b'old output' * 1000):
                    yield n, cn, c, 0, old
                for n2 in range(1, len(tr) + 2):
                    yield n, cn, c, n2, None
    spread(rep, 'kills', _kill_worker, items(), 40)


def _sched_worker(job):
    _, items = job
    P = Part()
    exe = workdir() + '/umlcc_static'
    for (ca, cb, same, i, j) in items:
        with Scratch() as d:
            S = dict(INPUTS)
            put(d + '/a.c', S[ca])
            if not same:
                put(d + '/b.c', S[cb])
            before = snap(d)
            r = pt(['sched', str(i), str(j), exe, 'a.c', 'a.c' if same else 'b.c'], d, '')
            after = snap(d)
            bad = None
            for k, cn, nm in (('A', ca, b'a.s'), ('B', cb, b'b.s')) if not same else (('A', ca, b'a.s'), ('B', ca, b'a.s')):
                rc, err = r.get(k, (None, b''))
                want = E.get(cn)
                got = after.get(nm)
                if want is not None:
                    if rc != 0 or got is None or got[2] != want:
                        bad = 'process %s: exit status %s, output %s' % (k, rc, 'missing' if got is None else '%d bytes instead of %d%s' % (len(got[2]), len(want), '' if got[2] != want else ' (right)'))
                elif rc != 1 or got is not None or b'error' not in err:
                    bad = 'process %s: exit status %s for an ill-formed program, output %s' % (k, rc, got is not None)
            df = diff(before, after)
            for k in (b'a.s', b'b.s'):
                df.pop(k, None)
            if df and not bad:
                bad = 'files changed: %r' % df
            P.case('two compilers (%s%s): A up to its call %d, B up to its call %d, then A, then B' % (ca, ', same file' if same else ' and ' + cb, i, j), bad, i + j)
    return P.st, P.fails, P.samples[:1]


def schedules(rep, tier):
    def items():
        ln = {}
        for cn, c in INPUTS:
            tr = trace_of(c)
            if tr is None:
                return
            ln[cn] = len(tr)
        for (ca, _), (cb, _) in itertools.product(INPUTS, repeat=2):
            for i in range(0, ln[ca] + 2):
                for j in range(0, ln[cb] + 2):
                    yield ca, cb, False, i, j
                    if ca == cb:
                        yield ca, cb, True, i, j
    spread(rep, 'schedules', _sched_worker, items(), 60)


ASSUMPTIONS = ['memory allocation does not fail', 'two compilers do not run on files that are each other\'s output']
ALL = [('names', names), ('paths', paths), ('graph', graph), ('limits', limits), ('faults', faults), ('kills', kills), ('schedules', schedules)]


def run(rep, tier, only):
    harness._G['exe'] = build_umlcc()
    bad = expect()
    if bad:
        rep.add('names', dict(states=1, executed=1), [dict(program='', detail='a well-formed program is ' + bad)])
        return
    objs = build_objs('o1', ['-O1'])
    rc, out = harness._cc(['gcc', '-static', '-o', workdir() + '/umlcc_static'] + objs)
    if rc:
        rc, out = harness._cc(['gcc', '-o', workdir() + '/umlcc_static'] + objs)
    if rc:
        raise BuildError(out)
    rc, out = harness._cc(['gcc', '-O1', '-w', '-o', workdir() + '/ptsched', LIB + '/ptsched.c'])
    if rc:
        raise RuntimeError(out)
    if trace_of(GOOD) is None:
        rep.assumptions.append('processes cannot be traced here: the parts faults, kills and schedules did not run')
    for n, f in ALL:
        if only and n not in only:
            continue
        t = harness.time.time()
        f(rep, tier)
        if os.environ.get('MC_DEBUG'):
            print(n, rep.cov.get(n), '%.1fs' % (harness.time.time() - t))
        if len(rep.new_fails()) >= 10:
            break
