#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One call of P(...) per property; kept as code so that wording stays reviewable."""
import json, os

OUT = []

def P(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    line = {
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': list(over), 'text': qtext},
        'why_tests_cant': why,
        'anchors': {
            'files': ['scarletio/' + f for f in files],
            'mechanism': [{'name': n, 'where': 'scarletio/' + w} for n, w in mechanism],
        },
    }
    if state:
        line['anchors']['state'] = [{'name': n, 'meaning': m, 'where': 'scarletio/' + w} for n, m, w in state]
    if observe:
        line['anchors']['observe_at'] = list(observe)
    line['anchors']['hook_needed'] = None
    OUT.append(line)

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties_src.py')).read())

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for line in OUT:
        f.write(json.dumps(line, ensure_ascii=False) + '\n')
print(len(OUT), 'properties')
