"""plant.py SPEC.py [...] [--check] [--props C03,C04]: makes /verif/seeded/<id>/ from a spec (ID, PROP, NEEDS, BREAKS, EDITS, DEMO) and verifies it.

The change is applied to a scratch copy of /repo, the tests and the demonstration are run, the property's quick check is run with --check, and the change is undone.
"""
import json
import os
import shutil
import subprocess
import sys
import time

REPO, OUT = f'/tmp/plant.{os.getpid()}/repo', '/verif/seeded'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def undo():
    sh(f'git -C {REPO} checkout -- .')


def stable_ok():
    t = open('/opt/vp/test.sh').read().replace('/repo', REPO).replace('PYTHONPATH=', f'PYTHONPATH={REPO}')
    open(f'{REPO}/../test.sh', 'w').write(t)
    sh(f'bash {REPO}/../test.sh {REPO}/../plant.json', cwd=REPO)
    base = json.load(open('/opt/vp/BASELINE.json'))
    base = base['stable']
    got = set(json.load(open(f'{REPO}/../plant.json'))['passed'])
    return sorted(set(base) - got)


def main():
    specs = [a for a in sys.argv[1:] if not a.startswith('--')]
    props = [a.split('=')[1].split(',') for a in sys.argv if a.startswith('--props=')]
    os.makedirs(os.path.dirname(REPO))
    sh(f'git clone -q /repo {REPO}')
    try:
        work(specs, props)
    finally:
        shutil.rmtree(os.path.dirname(REPO))


def work(specs, props):
    for sp in specs:
        ns = {}
        exec(open(sp).read(), ns)
        d = os.path.join(OUT, ns['ID'])
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write(ns.get('DEMO_SH') or '#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        with open(os.path.join(d, 'demo.py'), 'w') as f:
            f.write("import os, sys\nsys.path.insert(0, os.getcwd())\nHERE = os.path.dirname(os.path.abspath(__file__))\n" + ns['DEMO'].lstrip('\n'))
        with open(os.path.join(d, 'meta.json'), 'w') as f:
            json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, f, indent=1)
        try:
            clean = sh(f'timeout 300 bash {d}/demo.sh', cwd=REPO)
            for file, old, new in ns['EDITS']:
                p = os.path.join(REPO, file)
                s = open(p).read()
                assert s.count(old) == 1, (ns['ID'], file, s.count(old), old)
                open(p, 'w').write(s.replace(old, new))
            diff = sh(f'git -C {REPO} diff').stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            lost = stable_ok()
            broken = sh(f'timeout 300 bash {d}/demo.sh', cwd=REPO)
            ok = clean.returncode == 0 and broken.returncode != 0 and not lost
            print(f'{ns["ID"]}: {"OK" if ok else "BAD"} demo clean={clean.returncode} broken={broken.returncode} lost tests={lost[:3]}', flush=True)
            if clean.returncode:
                print('   clean:', (clean.stdout + clean.stderr)[-600:])
            if not broken.returncode or '--v' in sys.argv:
                print('   broken:', (broken.stdout + broken.stderr)[-400:])
            if '--check' in sys.argv and ok:
                for pid in (props[0] if props else [ns['PROP']]):
                    t = time.time()
                    r = sh(f'VERIF_REPO={REPO} VERIF_EVIDENCE_DIR=/tmp/ev VERIF_REPLAY_DIR=/tmp/replays VERIF_SEED=1 VERIF_TIER=quick ./check.py --property {pid} --tier quick', cwd='/verif')
                    lines = (r.stdout + r.stderr).strip().splitlines()
                    print(f'   {pid}: exit {r.returncode} in {time.time() - t:.0f} s: ' + ('CAUGHT' if r.returncode == 1 and any(x.startswith(f'VIOLATION property={pid}') for x in lines) else 'MISSED'))
                    for x in [x for x in lines if x.strip().startswith('[')][-2:]:
                        print('      ', x.strip()[:260], flush=True)
        finally:
            undo()


main()
