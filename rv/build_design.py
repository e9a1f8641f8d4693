"""regenerate the per-property part of DESIGN.md from the catalog, the checks and
the timings of the last run; everything above the marker is written by hand"""
import importlib
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path[:0] = [here, root, os.environ.get('RV_REPO', '/repo'),
    os.path.join(here, 'stub')]
from catalog import P
MARK = '<!-- generated by rv/build_design.py below this line -->\n'


def main():
    path = os.path.join(root, 'DESIGN.md')
    text = open(path).read().split(MARK)[0]
    out = [MARK, '\n## Property by property\n\nNumbers after a section are its cases in '
        'the quick and the thorough tier. "Seconds" are those of the last quick '
        'run on the machine that wrote this file.\n']
    for p in P:
        m = importlib.import_module('checks.'+p['id'])
        try:
            e = json.load(open(os.path.join(root, 'evidence', p['id']+'.json')))
            cost = f"{e['wall_s']:.0f} s, {e['coverage']['evaluations']} executions, " \
                f"{sum(e['coverage']['oracle_evaluations'].values())} observations"
        except (OSError, KeyError):
            cost = 'not measured'
        rule = ' '.join(m.check.rule.split())
        out.append(f"\n### {p['id']} {p['title']}\n\n"
            f"* Decided by: {rule}.\n"
            f"* Sections: {', '.join(f'{s[0]} {s[2]}/{s[3]}' for s in m.check.sections)}.\n"
            f"* Bounds and trust: {' '.join(p['note'].split())}"
            + (' ' + '; '.join(m.check.assumptions) + '.' if m.check.assumptions else '')
            + f"\n* Beyond the tests: {' '.join(p['why'].split())} Quantified over: "
            f"{' '.join(p['text'].split())}\n* Seconds: {cost}.\n")
    with open(path, 'w') as f:
        f.write(text.rstrip('\n')+'\n\n'+''.join(out))


main()
