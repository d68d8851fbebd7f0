#!/usr/bin/env python3
"""check.py <PROPERTY> : decide one property on /repo's current working tree."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
import harness  # noqa: E402


def main():
    pid = sys.argv[1]
    only = sys.argv[2:]
    mod = importlib.import_module('p' + pid[1:])
    tier = harness.TIER
    rep = harness.Report(pid)
    rep.assumptions = list(getattr(mod, 'ASSUMPTIONS', [])) + [
        'the executions of the reference model (lib/refc.py) define the expected behaviour; executions with undefined '
        'or unspecified behaviour are excluded', 'GNU as, ld and the x86-64 CPU are trusted']
    if hasattr(mod, 'run'):
        mod.run(rep, tier, only)
    else:
        harness._G['exe'] = harness.build_umlcc()
        for name, gen in mod.PARTS:
            if only and name not in only:
                continue
            t = harness.time.time()
            if name.startswith('v:'):       # programs to be accepted or refused
                st, fails, samples = harness.run_verdicts(gen(tier))
            else:
                st, fails, samples = harness.run_units(gen(tier), env=getattr(mod, 'ENV', None),
                                                       debug=bool(os.environ.get('MC_DEBUG')),
                                                       batch=getattr(mod, 'BATCH', 150))
            rep.add(name, st, fails, samples)
            if os.environ.get('MC_DEBUG'):
                print(name, st, '%.1fs' % (harness.time.time() - t))
            if st.get('rejected_by_model'):
                raise RuntimeError('generator made ill-formed programs in part ' + name)
            if len(rep.new_fails()) >= 10:
                break
    return rep.finish()


if __name__ == '__main__':
    try:
        rc = main()
    except harness.BuildError as e:
        print('cannot build umlcc: %s' % e)
        rc = 3
    sys.exit(rc)
