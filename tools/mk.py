#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os, sys
B = 'protospec-build/src/'
ENC = [B+'coder/encode', B+'compiler/encoder.rs']
DEC = [B+'coder/decode', B+'compiler/decoder.rs']
P = []
def p(id, title, statement, over, text, why, files, mech, tech, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note))
exec(open(os.path.join(os.path.dirname(__file__), 'props.py')).read())
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P.sort(key=lambda x: x['id'])
with open(root+'/properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['statement'], 'quantifier': {'over': x['over'], 'text': x['text']}, 'why_tests_cant': x['why'], 'anchors': {'files': x['files'], 'mechanism': [{'name': a, 'where': b} for a, b in x['mech']]}}) + '\n')
m = {'version': 1, 'setup_cmd': './check.sh setup', 'checks': [{'property': x['id'], 'quick_cmd': f"./check.sh {x['id']} quick", 'thorough_cmd': f"./check.sh {x['id']} thorough", 'technique': x['tech'], 'level': 'exploration', 'level_note': x['note']} for x in P], 'not_applicable': []}
json.dump(m, open(root+'/MANIFEST.json', 'w'), indent=1)
