"""Writes MANIFEST.json from the check modules that exist (mc/cNN.py)."""
import json
import os

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
DEFAULT_TECH = ('model checking by explicit, exhaustive enumeration of a bounded space of inputs, '
                'configurations and operation sequences on the real code '
                'against an independent reference model')
TECH = {
    'C01': 'explicit-state search: all tables of positions reachable by '
           'remappings, every transition executed on the real code against '
           'composition of functions',
    'C22': 'explicit-state search over histories of adding and removing '
           'source files and converting, on the real code against a '
           'dictionary model',
    'C27': 'explicit-state search over histories of command line invocations, '
           'answers, publications and removals, on the real code against a '
           'model of the target directory',
    'C23': 'fault enumeration: every failure point of every batch history, '
           'injected into the transport, on the real download code',
    'C24': 'explicit-state search over operation sequences on shared '
           'arguments, result compared with a fresh process',
    'C29': 'explicit enumeration of all histories of calls with display '
           'switches on, off or omitted, on the real code, against the call '
           'without',
    'C25': 'stateless exploration of thread interleavings of the real code '
           'under a cooperative scheduler, preemption-bounded',
}
NOTE = ('Every case of the stated finite spaces is executed on the real code '
        'from /repo and compared with a reference model written from the '
        'property; nothing is claimed outside these spaces. Trusts numpy, '
        'pandas, scipy and the reference model.')
NOTES = {}


def main():
    checks, na = [], []
    with open(os.path.join(ROOT, 'properties.jsonl')) as f:
        props = [json.loads(l) for l in f]
    for p in props:
        i = p['id']
        if os.path.exists(os.path.join(ROOT, 'mc', i.lower() + '.py')):
            checks.append({
                'property': i,
                'quick_cmd': f'{PY} -m mc {i} --tier quick',
                'thorough_cmd': f'{PY} -m mc {i} --tier thorough',
                'evidence_file': f'evidence/{i}.json',
                'technique': TECH.get(i, DEFAULT_TECH),
                'level': 'model_checking',
                'level_note': NOTES.get(i, NOTE)})
        else:
            na.append({'property': i, 'reason': 'its check is not built yet'})
    m = {'version': 1,
         'setup_cmd': f'{PY} -c "import numpy, pandas, scipy"',
         'checks': checks, 'not_applicable': na,
         'notes': 'All checks are pure Python and import the package from '
                  '/repo/src; nothing has to be built. No hooks.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
