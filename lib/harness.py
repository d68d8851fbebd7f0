"""Common machinery: build umlcc from /repo's working tree, run batches of generated units against the reference
model, report."""
import atexit
import hashlib
import json
import multiprocessing as mp
import multiprocessing.pool
import os
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import time

LIB = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(LIB)
REPO = os.environ.get('UMLCC_REPO', '/repo')
sys.path.insert(0, LIB)
import refc  # noqa: E402

NPROC = min(8, os.cpu_count() or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
LIMIT = 30000      # steps of a model execution; longer ones are outside the bound

TROUBLE = mp.RawValue('d', 0.0)     # when the first unlisted violation was found (shared with the workers)
GRACE = 60


def trouble(fails):
    """note the time of the first violation; from GRACE seconds after it no further work is started"""
    if not TROUBLE.value and any(not f.get('finding_id') for f in fails):
        TROUBLE.value = time.time()


def give_up():
    return TROUBLE.value and time.time() - TROUBLE.value > GRACE


_work = None


def workdir():
    global _work
    if _work is None:
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        try:
            if base and shutil.disk_usage(base).free < 256 << 20:
                base = None
        except OSError:
            base = None
        _work = tempfile.mkdtemp(prefix='umlccmc.', dir=base)
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_work, ignore_errors=True)
        atexit.register(clean)
    return _work


class BuildError(Exception):
    pass


def src_files():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in sorted(fs):
            if f.endswith('.c'):
                out.append(os.path.join(d, f))
    return sorted(out)


def _cc(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build_objs(tag, flags, main_rename=None, cc='gcc'):
    """compile every source of /repo/src into workdir()/tag; returns list of objects"""
    d = os.path.join(workdir(), tag)
    os.makedirs(d, exist_ok=True)
    jobs = []
    objs = []
    for f in src_files():
        o = os.path.join(d, os.path.relpath(f, REPO).replace('/', '_')[:-2] + '.o')
        extra = ['-D%s=%s' % main_rename] if main_rename and os.path.basename(f) == 'main.c' else []
        jobs.append([cc, '-std=c99', '-w'] + flags + extra + ['-c', f, '-o', o])
        objs.append(o)
    with mp.pool.ThreadPool(NPROC) as tp:
        for rc, out in tp.imap(_cc, jobs):
            if rc:
                raise BuildError(out)
    return objs


def build_umlcc():
    exe = os.path.join(workdir(), 'umlcc')
    objs = build_objs('o1', ['-O1'])
    rc, out = _cc(['gcc', '-o', exe] + objs)
    if rc:
        raise BuildError(out)
    return exe


def build_runner():
    d = workdir()
    for n, fl in (('runner.c', ['-O2']), ('tramp.S', []), ('mark0.S', []), ('mark1.S', [])):
        rc, out = _cc(['gcc', '-no-pie', '-fno-pie'] + fl + ['-c', os.path.join(LIB, n), '-o',
                       os.path.join(d, n[:-2] + '.o')])
        if rc:
            raise BuildError(out)


# ------------------------------------------------------------------ external functions
# name -> signature "<ret><mode><params>"
EXTS = {
    'ti': 'iii', 'tc': 'cic', 'tl': 'lil', 'tu': 'uiu', 'tU': 'UiU', 'tv': 'v0i', 'ts': 'i0s', 'tp': 'pip', 'tI': 'i0I',
    'tvl': 'v0l', 'tvU': 'v0U', 'tii': 'ifii', 'tn': 'if',
}
CT = {'c': 'char', 'i': 'int', 'u': 'unsigned int', 'l': 'long', 'U': 'unsigned long', 'L': 'long long',
      'W': 'unsigned long long', 'p': 'void *', 's': 'char *', 'I': 'int *', 'v': 'void'}
RT = {'c': refc.CHAR, 'i': refc.INT, 'u': refc.UINT, 'l': refc.LONG, 'U': refc.ULONG, 'L': refc.LLONG,
      'W': refc.ULLONG, 'p': refc.ptr(refc.VOID), 's': refc.ptr(refc.CHAR), 'I': refc.ptr(refc.INT), 'v': refc.VOID}
M64 = (1 << 64) - 1


def proto(name, sig):
    ps = ', '.join(CT[c] for c in sig[2:]) or 'void'
    return '%s %s(%s);' % (CT[sig[0]], name, ps)


def mk_ext(eid, sig):
    ret, mode, params = sig[0], sig[1], sig[2:]

    def fn(prog, args):
        tr = prog.m.trace
        objs = prog.m.objs
        tr.append(0x7e00000000000000 + eid)
        if len(tr) > 3000:
            raise refc.UB('trace too long')
        fold = 0
        for i, (c, v) in enumerate(zip(params, args)):
            if c == 'p':
                tr.append(1 if v else 0)
            elif c == 's':
                o, off = objs[v >> 32], v & 0xffffffff
                if not isinstance(o, refc.Obj):
                    raise refc.UB('string')
                while True:
                    if off >= o.size or not o.init[off]:
                        raise refc.UB('string')
                    b = o.data[off]
                    off += 1
                    if b == 0:
                        break
                    tr.append((b - 256 if b > 127 else b) & M64)
                tr.append(0)
            elif c == 'I':
                o, off = objs[v >> 32], v & 0xffffffff
                if not isinstance(o, refc.Obj) or off + 4 > o.size or 0 in o.init[off:off + 4]:
                    raise refc.UB('int ptr')
                tr.append(int.from_bytes(o.data[off:off + 4], 'little', signed=True) & M64)
            else:
                tr.append(v & M64)
                fold += v * (2 * i + 1)
        if mode == 'i':
            return args[0]
        if mode == 'f':
            return fold + 1
        return 0
    return fn


class Env:
    """external functions visible to the generated programs"""

    def __init__(self, exts=None):
        self.exts = dict(EXTS if exts is None else exts)
        self.order = list(self.exts)
        self.model = {n: mk_ext(i, self.exts[n]) for i, n in enumerate(self.order)}
        self.protos = {n: proto(n, self.exts[n]) for n in self.order}

    def used(self, src):
        import re
        ids = set(re.findall(r'[A-Za-z_]\w*', src))
        return [n for n in self.order if n in ids]

    def asm(self, fns):
        s = ['\t.text']
        for i, n in enumerate(self.order):
            s.append('\t.globl %s\n%s:\n\tmov $%d, %%eax\n\tjmp ext_common' % (n, n, i))
        s.append('\t.section .rodata\n\t.balign 8\n\t.globl ext_sigs\next_sigs:')
        for i in range(len(self.order)):
            s.append('\t.quad .Lsig%d' % i)
        for i, n in enumerate(self.order):
            s.append('.Lsig%d: .asciz "%s"' % (i, self.exts[n]))
        s.append('\t.balign 8\n\t.globl fn_table\nfn_table:')
        for f in fns:
            s.append('\t.quad %s' % f)
        s.append('\t.section .note.GNU-stack,"",@progbits\n')
        return '\n'.join(s)


# ------------------------------------------------------------------ units
class Unit:
    """src uses @ for the unit number in every file-scope name; entry is 'f@' by default.
    cases: list of arg tuples. order: also evaluate right-to-left and drop cases that depend on it"""
    __slots__ = ('src', 'cases', 'entry', 'order', 'tag', 'opt', 'finding', 'maybe')

    def __init__(self, src, cases=((),), entry='f@', order=False, tag='', opt=False, finding=None, maybe=False):
        self.src = src
        self.cases = cases
        self.entry = entry
        self.order = order
        self.tag = tag
        self.finding = finding      # id under which a failure may be listed in known_findings.json
        self.maybe = maybe      # may be ill-formed: then nothing is executed (a v: part judges its refusal)
        self.opt = opt      # a diagnosed rejection is also fine (resource limits)


def case_args(ft, args):
    """raw 64-bit register images: bits above the type are deliberately garbage (above 32 bits)"""
    out = []
    for t, a in zip(ft.params, args):
        v = a & M64
        if refc.is_int(t) and t.size <= 4:
            v = (refc.wrap(t, a) & 0xffffffff) | 0x7b7b7b7b00000000
        out.append(v)
    return out


class Expect:
    __slots__ = ('args', 'raw', 'ret', 'size', 'trace')


def model_unit(u, idx, env, stats):
    """returns (verdict, detail, [Expect])"""
    src = u.src.replace('@', str(idx))
    full = '\n'.join(env.protos[n] for n in env.used(src)) + '\n' + src
    try:
        p = refc.Program(full, env.model)
        q = refc.Program(full, env.model, rtl=True) if u.order else None
    except refc.Reject as e:
        return 'reject', str(e), [], full
    except refc.Unsup as e:
        return 'either', str(e), [], full
    if p.soft and not u.opt:
        return 'reject', 'soft: ' + p.soft, [], full
    name = u.entry.replace('@', str(idx))
    ft = p.funcs[name].ty
    out = []
    for a in u.cases:
        s0 = p.m.steps
        try:
            r, tr = p.call(name, a, LIMIT)
            stats['transitions'] += p.m.steps - s0 + 1 + len(tr)
            if q is not None:
                r2, tr2 = q.call(name, a, LIMIT)
                if r2 != r or tr2 != tr:
                    stats['order_dependent'] += 1
                    continue
        except refc.UB as e:
            stats['ub'] += 1
            continue
        x = Expect()
        x.args = a
        x.raw = case_args(ft, a)
        x.ret = None if r is None else r & M64
        x.size = 0 if r is None else ft.sub.size
        if ft.sub.kind == 'ptr':
            x.size = 0
        x.trace = list(tr)
        out.append(x)
    stats['states'] += len(out)
    return 'accept', '', out, full


def run_cmd(cmd, timeout=120, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('latin-1'), e.decode('latin-1')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return 'timeout', '', ''


def compile_src(exe, src, path, timeout=15):
    """umlcc on src; returns (rc, stderr, asm or None)"""
    with open(path + '.c', 'w', encoding='latin-1') as f:
        f.write(src)
    if os.path.exists(path + '.s'):
        os.unlink(path + '.s')
    rc, o, e = run_cmd([exe, path + '.c'], timeout)
    return rc, e


def exec_batch(exe, env, srcs, fns, cases, path):
    """compile+assemble+link+run. srcs: text; fns: names; cases: [(fnidx, rawargs)].
    returns ('ok', results) or (stage, detail)"""
    rc, err = compile_src(exe, srcs, path)
    if rc != 0 or not os.path.exists(path + '.s'):
        return 'umlcc', (rc, err)
    rc, o, e = run_cmd(['as', '-o', path + '.o', path + '.s'])
    if rc != 0:
        return 'as', e
    with open(path + '_x.s', 'w') as f:
        f.write(env.asm(fns))
    rc, o, e = run_cmd(['as', '-o', path + '_x.o', path + '_x.s'])
    if rc != 0:
        return 'harness', e
    w = workdir()
    rc, o, e = run_cmd(['gcc', '-no-pie', '-o', path + '.exe', w + '/mark0.o', path + '.o', w + '/mark1.o',
                        path + '_x.o', w + '/runner.o', w + '/tramp.o'])
    if rc != 0:
        return 'ld', e
    with open(path + '.in', 'wb') as f:
        f.write(struct.pack('<I', len(cases)))
        for fi, raw in cases:
            f.write(struct.pack('<II%dQ' % len(raw), fi, len(raw), *raw))
    rc, o, e = run_cmd([path + '.exe', path + '.in', path + '.out'], timeout=120)
    if rc != 0:
        return 'run', (rc, e)
    data = open(path + '.out', 'rb').read()
    res = []
    pos = 0
    for _ in cases:
        st, fl, rax, nt, _p = struct.unpack_from('<IIQII', data, pos)
        pos += 24
        tr = list(struct.unpack_from('<%dQ' % nt, data, pos)) if nt else []
        pos += 8 * nt
        res.append((st, fl, rax, tr))
    for ext in ('.c', '.s', '.o', '_x.s', '_x.o', '.exe', '.in', '.out'):
        try:
            os.unlink(path + ext)
        except OSError:
            pass
    return 'ok', res


FLAGN = ['callee-saved register clobbered', 'stack pointer not restored', 'misaligned stack at call',
         'caller stack overwritten', 'trace overflow']


def compare(x, res):
    st, fl, rax, tr = res
    if st == 1:
        return 'crashed with signal %d' % rax
    if st == 2:
        return 'did not terminate'
    if st == 3:
        return None
    if fl:
        return '; '.join(n for i, n in enumerate(FLAGN) if fl >> i & 1)
    if x.size:
        m = (1 << 8 * x.size) - 1
        if (rax & m) != (x.ret & m):
            return 'returned %#x, expected %#x' % (rax & m, x.ret & m)
    if tr != x.trace:
        return 'observable trace %s, expected %s' % (fmt_trace(tr), fmt_trace(x.trace))
    return None


def fmt_trace(t):
    out = []
    for v in t[:60]:
        if v >> 56 == 0x7e:
            out.append('call#%d' % (v & 0xffff))
        else:
            out.append(str(v - (1 << 64) if v >> 63 else v))
    return '[' + ' '.join(out) + (' ...' if len(t) > 60 else '') + ']'


def full_src(env, units, idxs):
    body = '\n'.join(u.src.replace('@', str(i)) for u, i in zip(units, idxs))
    pre = '\n'.join(env.protos[n] for n in env.used(body))
    return pre + '\n' + body + '\n'


def is_diag(rc, err):
    return rc == 1 and 'error' in err


def single(exe, env, u, idx, exps, path, stats):
    """run one unit alone; returns failure text or None"""
    src = full_src(env, [u], [idx])
    r, d = exec_batch(exe, env, src, [u.entry.replace('@', str(idx))], [(0, x.raw) for x in exps], path)
    if r == 'umlcc':
        if u.opt and is_diag(*d):
            stats['diagnosed'] += 1
            return None
        return 'umlcc failed on a well-formed program: rc=%s %s' % (d[0], clean(d[1]))
    if r != 'ok':
        return 'stage %s failed: %s' % (r, str(d)[:400])
    for x, y in zip(exps, d):
        m = compare(x, y)
        if m:
            return 'args %s: %s' % (list(x.args), m)
    return None


def clean(s):
    import re
    return re.sub(r'\x1b\[[0-9;]*m', '', s)[:300].replace('\n', ' | ')


def new_stats():
    return dict(units=0, states=0, transitions=0, ub=0, order_dependent=0, executed=0, either=0, rejected_by_model=0,
                diagnosed=0, accept_checked=0, ill_formed=0)


_G = {}


def _batch_worker(job):
    bid, specs = job
    if give_up():
        return new_stats(), [], None
    units = specs() if callable(specs) else specs
    env = _G['env']
    exe = _G['exe']
    stats = new_stats()
    fails = []
    path = os.path.join(workdir(), 'b%d_%d' % (os.getpid(), bid))
    live = []
    for i, u in enumerate(units):
        stats['units'] += 1
        v, detail, exps, full = model_unit(u, i, env, stats)
        if v == 'either':
            stats['either'] += 1
            continue
        if v == 'reject':
            if u.maybe:
                stats['ill_formed'] += 1
                continue
            # generators only make well-formed programs here: treat as a harness bug
            stats['rejected_by_model'] += 1
            if _G.get('debug'):
                print('MODEL REJECT', detail, '\n', full)
            continue
        if not exps:
            # no defined execution: acceptance is still promised
            pass
        live.append((i, u, exps))
    if not live:
        return stats, fails, None
    run_group(exe, env, live, path, stats, fails)
    trouble(fails)
    i, u, exps = live[0]
    sample = None
    if exps:
        sample = dict(program=u.src.replace('@', str(i)), args=list(exps[0].args),
                      expected=exps[0].ret, trace=fmt_trace(exps[0].trace))
    return stats, fails, sample


def run_group(exe, env, live, path, stats, fails, depth=0):
    trouble(fails)
    if give_up():
        return
    src = full_src(env, [u for _, u, _ in live], [i for i, _, _ in live])
    cases = []
    for k, (i, u, exps) in enumerate(live):
        for x in exps:
            cases.append((k, x.raw))
    fns = [u.entry.replace('@', str(i)) for i, u, _ in live]
    r, d = exec_batch(exe, env, src, fns, cases, path)
    if r == 'ok':
        pos = 0
        for i, u, exps in live:
            stats['accept_checked'] += 1
            bad = None
            for x in exps:
                m = compare(x, d[pos])
                stats['executed'] += 1
                pos += 1
                if m and not bad:
                    bad = (x, m)
            if bad and (len(fails) < 5 or u.finding):
                # confirm in isolation; otherwise confirm by running the same batch again
                one = single(exe, env, u, i, exps, path + 's', stats)
                if one:
                    fails.append(dict(program=full_src(env, [u], [i]), detail=one, tag=u.tag, finding_id=u.finding))
                else:
                    r2, d2 = exec_batch(exe, env, src, fns, cases, path)
                    if r2 != 'ok' or any(compare(x, y) for (x, y) in zip(
                            [x for _, _, e in live for x in e], d2)):
                        fails.append(dict(program=src, detail='in a translation unit of %d functions, %s%s: %s' % (
                            len(fns), u.entry.replace('@', str(i)), list(bad[0].args), bad[1]), tag=u.tag))
        return
    if r == 'harness':
        raise RuntimeError(d)
    if len(live) == 1:
        i, u, exps = live[0]
        one = single(exe, env, u, i, exps, path + 's', stats)
        if one:
            fails.append(dict(program=src, detail=one, tag=u.tag, finding_id=u.finding))
        return
    n0 = len(fails)
    if depth > 2 or len(fails) > 3:
        # enough evidence: test each alone until one fails
        for t in live:
            run_group(exe, env, [t], path, stats, fails, depth + 1)
            if len(fails) > 3:
                break
    else:
        step = max(1, (len(live) + 7) // 8)
        for k in range(0, len(live), step):
            run_group(exe, env, live[k:k + step], path, stats, fails, depth + 1)
            if len(fails) > 3:
                break
    if len(fails) == n0 and not any(u.opt for _, u, _ in live) and depth == 0:
        # every part works alone but not together
        r2, d2 = exec_batch(exe, env, src, fns, cases, path)
        if r2 != 'ok':
            fails.append(dict(program=src, detail='parts compile and run alone, but the combined translation unit '
                              'fails at stage %s: %s' % (r2, clean(str(d2))), tag='composition'))


def chunks(it, n):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) == n:
            yield buf
            buf = []
    if buf:
        yield buf


def pool_map(fn, jobs, chunksize=1):
    ctx = mp.get_context('fork')
    with ctx.Pool(NPROC) as pool:
        for r in pool.imap_unordered(fn, jobs, chunksize):
            yield r


DEADLINE = {'quick': 600, 'thorough': 6 * 3600}
CUT = []        # non-empty when the deadline stopped an enumeration


def _spread(fn, jobs, stop):
    """results of fn over the jobs, in any order; jobs are taken lazily. When stop() becomes true or the time is up no further
    job is started and those under way are waited for (terminating a pool that is being fed can deadlock)."""
    ctx = mp.get_context('fork')
    pool = ctx.Pool(NPROC)
    sem = threading.Semaphore(NPROC * 4)
    halt = []

    def feed():
        for j in jobs:
            sem.acquire()
            if halt or give_up():
                return
            if time.time() - T0 > DEADLINE.get(TIER, 600):
                CUT.append(1)
                return
            yield j
    for r in pool.imap_unordered(fn, feed()):
        yield r
        if not halt and (stop() or give_up()):
            halt.append(1)
        sem.release()
    pool.close()
    pool.join()


def run_units(units, env=None, exe=None, batch=150, debug=False, stop_after=10):
    """Model-check every unit. Returns (stats, fails, samples)"""
    env = env or Env()
    _G['env'] = env
    _G['exe'] = exe or _G.get('exe') or build_umlcc()
    _G['debug'] = debug
    if not os.path.exists(workdir() + '/runner.o'):
        build_runner()
    total = new_stats()
    fails = []
    samples = []
    def full():
        return sum(1 for f in fails if not f.get('finding_id')) >= stop_after

    for st, fl, smp in _spread(_batch_worker, enumerate(chunks(units, batch)), full):
        for k in total:
            total[k] += st[k]
        fails += fl
        if smp and len(samples) < 3:
            samples.append(smp)
    return total, fails, samples


# ------------------------------------------------------------------ compile-only server
class Res:
    __slots__ = ('kind', 'code', 'err', 'asmlen', 'hash', 'left', 'asm')

    @property
    def ok(self):
        return self.kind == 0 and self.code == 0 and self.asmlen >= 0

    @property
    def diag(self):
        return self.kind == 0 and self.code == 1 and b'error' in self.err and self.asmlen < 0

    def show(self):
        k = {0: 'exit status %d' % self.code, 1: 'killed by signal %d' % self.code, 2: 'timed out', 3: 'not run'}[self.kind]
        return '%s%s, stderr %r' % (k, '' if self.asmlen < 0 else ', output file of %d bytes' % self.asmlen,
                                    clean(self.err.decode('latin-1'))[:200])


SAN = {'plain': ('gcc', ['-O1'], 10, 4096),
       'asan': ('gcc', ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer'], 40, 0),
       'msan': ('clang', ['-O1', '-g', '-fsanitize=memory', '-fno-omit-frame-pointer'], 40, 0)}


def build_ucserv(kind='plain'):
    cc, fl, tmo, mb = SAN[kind]
    exe = os.path.join(workdir(), 'ucserv_' + kind)
    objs = build_objs('u' + kind, fl, main_rename=('main', 'umlcc_main'), cc=cc)
    rc, out = _cc([cc] + fl + ['-w', '-Wl,--wrap=exit', '-o', exe, os.path.join(LIB, 'ucserv.c')] + objs)
    if rc:
        raise BuildError(out)
    return exe


def serve(srcs, kind='plain', keep=False, tmo=None, group=1):
    """run the compiler on every source (bytes or latin-1 str) of one chunk, sequentially"""
    d = tempfile.mkdtemp(prefix='uc', dir=workdir())
    try:
        inp, outp, wd = d + '/in', d + '/out', d + '/w'
        os.mkdir(wd)
        with open(inp, 'wb') as f:
            for s in srcs:
                b = s.encode('latin-1') if isinstance(s, str) else s
                f.write(struct.pack('<I', len(b)))
                f.write(b)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:exitcode=99:'
                   'detect_stack_use_after_return=0:abort_on_error=0:quarantine_size_mb=64', MSAN_OPTIONS='exitcode=98')
        p = subprocess.run([os.path.join(workdir(), 'ucserv_' + kind), inp, outp, wd,
                            str(tmo or SAN[kind][2]), '1' if keep else '0', str(SAN[kind][3]), str(1 if keep else group)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        if p.returncode:
            raise RuntimeError('ucserv: %s %s' % (p.returncode, p.stdout[:300]))
        data = open(outp, 'rb').read()
        out = []
        pos = 0
        for _ in srcs:
            r = Res()
            r.kind, r.code, en, r.asmlen, r.hash, r.left, _p = struct.unpack_from('<iiIiQII', data, pos)
            pos += 32
            r.err = data[pos:pos + en]
            pos += en
            r.asm = b''
            if keep and r.asmlen >= 0:
                r.asm = data[pos:pos + r.asmlen]
                pos += r.asmlen
            out.append(r)
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def par(fn, items, n, stop=None):
    """apply fn to chunks of n items in parallel; yields results; fn must be a module-level function"""
    return _spread(fn, chunks(items, n), stop or (lambda: False))


# ------------------------------------------------------------------ accept / reject
def _verdict_worker(batch):
    """batch: list of (source, tag, finding). The model's verdict against what the compiler does"""
    _, items = batch
    st = new_vstats()
    fails = []
    if give_up():
        return st, fails, None
    res = serve([s for s, _, _ in items], 'plain', tmo=15)
    for (s, tag, fid), r in zip(items, res):
        if r.kind == 3:
            continue
        v = refc.verdict(s)[0]
        st['states'] += 1
        st['transitions'] += len(s)
        st['executed'] += 1
        st[v] += 1
        bad = None
        if v == 'accept' and not r.ok:
            bad = 'well-formed program refused: ' + r.show()
        elif v == 'reject' and not r.diag:
            bad = 'ill-formed program not diagnosed: ' + r.show()
        elif not (r.ok or r.diag):
            bad = 'neither compiled nor diagnosed: ' + r.show()
        elif r.left:
            bad = 'other files left behind'
        if bad and fid:
            bad = bad.split(':')[0]
        if bad:
            fails.append(dict(program=s, detail=bad, tag=tag, finding_id=fid))
    trouble(fails)
    return st, fails, dict(program=items[0][0], verdict=refc.verdict(items[0][0])[0])


def new_vstats():
    return dict(states=0, transitions=0, executed=0, accept=0, reject=0, either=0)


def run_verdicts(items, batch=400, stop_after=10):
    """items: (source, tag) or (source, tag, finding). Every program is accepted or diagnosed as the model says"""
    if not os.path.exists(os.path.join(workdir(), 'ucserv_plain')):
        build_ucserv('plain')
    total, fails, samples = new_vstats(), [], []

    def norm():
        for it in items:
            yield (it[0], it[1], it[2] if len(it) > 2 else None)

    def full():
        return sum(1 for f in fails if not f.get('finding_id')) >= stop_after
    for st, fl, smp in _spread(_verdict_worker, enumerate(chunks(norm(), batch)), full):
        for k in total:
            total[k] += st[k]
        fails += fl
        if smp and len(samples) < 3:
            samples.append(smp)
    return total, fails, samples


# ------------------------------------------------------------------ reporting
class Report:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.cov = {}
        self.fails = []
        self.samples = []
        self.assumptions = []
        self.states = self.transitions = self.validated = 0
        self.known = load_known(prop)
        self.known_hit = []

    def add(self, name, stats, fails, samples=()):
        self.states += stats.get('states', 0)
        self.transitions += stats.get('transitions', 0)
        self.validated += stats.get('executed', 0)
        self.cov[name] = {k: v for k, v in stats.items() if v or k in ('states',)}
        for f in fails:
            f.setdefault('part', name)
            self.fails.append(f)
        for s in list(samples)[:1]:
            self.samples.append(dict(part=name, **s) if isinstance(s, dict) else s)

    def new_fails(self):
        return [f for f in self.fails if match_known(self.known, f) is None]

    def finish(self, exhaustive=True):
        rdir = os.path.join(VERIF, 'evidence')
        os.makedirs(rdir, exist_ok=True)
        new = []
        for f in self.fails:
            k = match_known(self.known, f)
            if k is not None:
                if k not in self.known_hit:
                    self.known_hit.append(k)
            else:
                new.append(f)
        for k in self.known_hit:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        rc = 0
        paths = []
        for old in os.listdir(rdir):
            if old.startswith('replay_%s_' % self.prop):
                os.unlink(os.path.join(rdir, old))
        for i, f in enumerate(new[:8]):
            path = os.path.join(rdir, 'replay_%s_%d.json' % (self.prop, i))
            with open(path, 'w') as h:
                json.dump(dict(property=self.prop, **f), h, indent=1)
            paths.append(path)
            print('%s [%s] %s' % (self.prop, f.get('part', ''), str(f.get('detail'))[:600]))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            rc = 1
        ev = dict(property=self.prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED,
                  level=self.level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.validated, samples=self.samples[:8],
                                exhaustive=exhaustive and not CUT and not new, parts=self.cov),
                  assumptions=self.assumptions, wall_s=round(time.time() - T0, 2), violations=len(new))
        with open(os.path.join(rdir, self.prop + '.json'), 'w') as h:
            json.dump(ev, h, indent=1)
        print('%s: states=%d transitions=%d validated=%d violations=%d wall=%.1fs' % (
            self.prop, self.states, self.transitions, self.validated, len(new), time.time() - T0))
        return rc


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop]


def match_known(known, f):
    for k in known:
        if k.get('id') is not None and k['id'] == f.get('finding_id') and k['detail'] == f.get('detail'):
            return k
    return None
