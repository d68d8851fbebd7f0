"""The container and scope-table modules: every sequence of operations up to a depth behaves like the abstract type it stands for."""
import os
import subprocess
import harness
from harness import *

ASSUMPTIONS = ['memory allocation succeeds', 'keys hash to non-negative numbers and values are not null',
               'pop is called on non-empty vectors only, live ranges start after the first instruction']
PARTS = [  # (part, macro, depth quick, depth thorough)
    ('vector', 'PART_VECTOR', 4, 5), ('map', 'PART_MAP', 6, 8), ('set', 'PART_SET', 5, 6), ('keys', 'PART_KEYS', 0, 0),
    ('pair', 'PART_PAIR', 6, 8), ('scopes', 'PART_SYMTAB', 5, 6), ('liveseq', 'PART_LIVESEQ', 9, 11),
]
FL = ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']


def run_shard(job):
    exe, depth, i, n = job
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99', UBSAN_OPTIONS='print_stacktrace=0')
    try:
        p = subprocess.run([exe, str(depth), str(i), str(n)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=5000 if harness.TIER == 'thorough' else 250)
    except subprocess.TimeoutExpired:
        return None, [('does not end', '')]
    st, fails = None, []
    for ln in p.stdout.decode('latin-1').splitlines():
        if ln.startswith('STAT '):
            st = [int(x) for x in ln.split()[1:]]
        elif ln.startswith('FAIL '):
            what, seq = ln[5:].split(' | ', 1)
            fails.append((what, seq))
    if st is None and not fails:
        fails.append(('the operations crash: exit %s %s' % (p.returncode, p.stderr.decode('latin-1')[:300]), ''))
    return st, fails


def run(rep, tier, only):
    objs = [o for o in build_objs('cont', FL) if not o.endswith('src_main.o')]
    n = NPROC
    for name, macro, q, t in PARTS:
        if only and name not in only:
            continue
        t0 = time.time()
        exe = os.path.join(workdir(), 'cont_' + name)
        rc, out = harness._cc(['gcc', '-std=gnu99', '-w'] + FL + ['-D' + macro, '-I', os.path.join(harness.REPO, 'src'), '-o', exe,
                               os.path.join(harness.LIB, 'cont.c')] + objs)
        st = dict(states=0, transitions=0, executed=0, not_built=0)
        fails = []
        samples = []
        if rc:      # the interface of the module changed: nothing is decided about it here
            st['not_built'] = 1
            print('part %s is skipped, its harness does not fit the interface: %s' % (name, out.strip().splitlines()[:1]))
            rep.add(name, st, fails, samples)
            continue
        depth = t if tier == 'thorough' else q
        with mp.pool.ThreadPool(NPROC) as tp:
            for s, fl in tp.imap_unordered(run_shard, [(exe, depth, i, n) for i in range(n)]):
                if s:
                    st['states'] += s[0]
                    st['transitions'] += s[1]
                    st['executed'] += s[0]
                for what, seq in fl[:2]:
                    fails.append(dict(program='%s: %s' % (name, seq), detail='%s: %s: %s' % (name, what, seq)))
        samples.append(dict(depth=depth, sequences=st['states']))
        rep.add(name, st, fails, samples)
        if os.environ.get('MC_DEBUG'):
            print(name, st, '%.1fs' % (time.time() - t0))
        if len(rep.new_fails()) >= 10 or any('does not end' in f['detail'] for f in rep.fails):
            break
