#!/opt/venv/bin/python
"""Decides one property by seeded deterministic simulation.

    check.py --property C01 [--tier quick|thorough] [--replay FILE] [--runs N] [--only-index I] [--selftest]

exit 0: the property held in every simulated run
exit 1: a run violated it; the last line is  VIOLATION property=<id> replay=<path>
exit 2: the harness could not decide (an error of the check itself)
"""
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def main() -> int:
    if os.environ.get('VERIF_INNER') != '1':
        # a fresh interpreter whose environment the simulator owns: fixed hash seed, private HOME/TMPDIR,
        # no byte code read from or written to /repo
        scratch = tempfile.mkdtemp(prefix='c21sim.')
        try:
            os.makedirs(os.path.join(scratch, 'home'))
            os.makedirs(os.path.join(scratch, 'tmp'))
            env = {
                'PATH': os.environ.get('PATH', '/usr/bin:/bin'),
                'VERIF_INNER': '1',
                'VERIF_SCRATCH': scratch,
                'VERIF_SEED': os.environ.get('VERIF_SEED', '1'),
                'VERIF_TIER': os.environ.get('VERIF_TIER', 'quick'),
                'PYTHONHASHSEED': os.environ.get('VERIF_HASHSEED', '0'),
                'PYTHONPYCACHEPREFIX': os.path.join(scratch, 'pyc'),
                'PYTHONDONTWRITEBYTECODE': '1',
                'PYTHONNOUSERSITE': '1',
                'HOME': os.path.join(scratch, 'home'),
                'TMPDIR': os.path.join(scratch, 'tmp'),
                'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC',
                'MPLBACKEND': 'Agg',
            }
            for k in ('VERIF_REPO', 'VERIF_JOBS', 'VERIF_EVIDENCE_DIR', 'VERIF_REPLAY_DIR'):
                if k in os.environ:
                    env[k] = os.environ[k]
            import subprocess
            r = subprocess.run([PY, '-X', 'faulthandler', os.path.abspath(__file__), *sys.argv[1:]], env=env, cwd=scratch)
            return r.returncode if r.returncode in (0, 1) else 2
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.path.insert(0, HERE)
    from sim import driver
    return driver.main(sys.argv[1:])


if __name__ == '__main__':
    sys.exit(main())
