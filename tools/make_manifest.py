"""Writes MANIFEST.json from the property modules that exist."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

NA_PURE = ('a pure function of the document or score: no schedule, clock, fault, I/O or history in it for a simulator to control; '
           'deciding it needs input generation against a reference model of the notation formats, which is another technique '
           '(the simulation checks do compare results of the same conversion with each other, see C03-C06)')


def main():
    props = [json.loads(ln) for ln in open(os.path.join(ROOT, 'properties.jsonl'), encoding='utf-8')]
    checks, na = [], []
    for p in props:
        pid = p['id']
        path = os.path.join(ROOT, 'sim', 'props', pid.lower() + '.py')
        if os.path.exists(path):
            prop = importlib.import_module(f'sim.props.{pid.lower()}').PROP
            checks.append({
                'property': pid,
                'quick_cmd': f'./check.py --property {pid} --tier quick',
                'thorough_cmd': f'./check.py --property {pid} --tier thorough',
                'evidence_file': f'evidence/{pid}.json',
                'technique': prop.TECHNIQUE,
                'level': prop.LEVEL,
                'level_note': prop.LEVEL_NOTE,
            })
        elif int(pid[1:]) >= 20:
            na.append({'property': pid, 'reason': NA_PURE})
        else:
            na.append({'property': pid, 'reason': 'check not built yet'})
    m = {
        'version': 1,
        'setup_cmd': './setup.sh',
        'checks': checks,
        'not_applicable': na,
        'notes': 'No hooks in /repo are needed: seams are Python-level (sys.monitoring, builtins.open, file objects, os.urandom, object hashes, environment, '
                 'an LD_PRELOAD clock shim). All commits in /repo are fixes of genuine defects, listed in known-findings.txt.',
    }
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')
    print([c['property'] for c in checks])


main()
