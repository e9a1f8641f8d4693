"""regenerate properties.jsonl and MANIFEST.json from rv/catalog.py"""
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from catalog import P, G


def path(a):
    return os.path.normpath(G+a)


seen = set()
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert p['id'] not in seen and len(p['title']) <= 80, p['id']
        seen.add(p['id'])
        files = []
        for a, _ in p['anchors']:
            if path(a) not in files:
                files.append(path(a))
        for a in files:
            assert os.path.exists(os.path.join('/repo', a)), a
        assert os.path.exists(os.path.join(root, 'checks', p['id']+'.py')), p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'],
            statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']),
            why_tests_cant=p['why'],
            anchors=dict(files=files, mechanism=[dict(name=m, where=path(a))
                for a, m in p['anchors']], observe_at=[
                'return values, object state and stored files of the public API'],
                hook_needed=None)))+'\n')
checks = [dict(property=p['id'], quick_cmd=f"./run.sh {p['id']} --tier quick",
    thorough_cmd=f"./run.sh {p['id']} --tier thorough",
    evidence_file=f"evidence/{p['id']}.json", technique=p['technique'],
    level='exploration', level_note=p['note']) for p in P]
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks,
        not_applicable=[], notes='Runtime monitoring of the pure-Python '
        'package imported from /repo; no hooks in /repo are needed. '
        'See DESIGN.md; known findings and repairs in known_findings.json.'),
        f, indent=1)
    f.write('\n')
print(len(P), 'properties')
