#!/usr/bin/env python3
"""The list of properties; `python3 spec.py` regenerates properties.jsonl and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []      # claimed
NA = []     # not applicable


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, level='other', thorough=True):
    assert len(title) <= 80, (id, len(title))
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}
    P.append(d)
    if na:
        NA.append({'property': id, 'reason': na})
    else:
        CH.append({'property': id, 'quick_cmd': 'python3 check.py %s' % id, 'thorough_cmd': 'python3 check.py %s --tier thorough' % id,
                   'technique': technique, 'level': level, 'level_note': note or ''})


CH = []
exec(open(HERE + '/spec_list.py').read())

with open(HERE + '/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
json.dump({'version': 1, 'setup_cmd': 'python3 lib/prog.py', 'checks': CH, 'not_applicable': NA}, open(HERE + '/MANIFEST.json', 'w'), indent=1)
# DESIGN.md: the lists of planted bugs and of properties that do not apply are filled in
t = open(HERE + '/design.in.md').read()
rows = ['| planted change | property | what it breaks | caught by |', '|---|---|---|---|']
sd = HERE + '/seeded'
if os.path.isdir(sd):
    for i in sorted(os.listdir(sd)):
        m = json.load(open(sd + '/' + i + '/meta.json'))
        rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m.get('caught_by', m['property'])))
    t = t.replace('@@SEEDS@@', '\n'.join(rows)).replace('@@NA@@', '\n'.join('* **%s** %s: %s' % (n['property'], [p['title'] for p in P if p['id'] == n['property']][0], n['reason']) for n in NA))
    open(HERE + '/DESIGN.md', 'w').write(t)
print(len(P), 'properties,', len(CH), 'checks')
