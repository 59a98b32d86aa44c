"""
Writes properties.jsonl, MANIFEST.json and the table of DESIGN.md's appendix
from tools/props.py, so that they cannot get out of step.
"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS

root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['forall']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                'observe_at': p['observe']},
        }) + '\n')

manifest = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': [{
        'property': p['id'],
        'quick_cmd': './run.sh %s --tier quick' % p['id'],
        'thorough_cmd': './run.sh %s --tier thorough' % p['id'],
        'technique': 'runtime monitoring: ' + p['technique'],
        'level': 'exploration',
        'level_note': p['note'],
    } for p in PROPS],
    'not_applicable': [],
    'notes': 'Pure Python code under test, imported straight from /repo '
        '(no build step is cached). VERIF_SEED is the seed of all workloads.',
}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
