#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'discs/samplers/'
SAMP = [S + f for f in ('abstractsampler.py', 'randomwalk.py', 'gibbs.py', 'blockgibbs.py', 'hammingball.py', 'locallybalanced.py',
                        'gwg.py', 'path_auxiliary.py', 'dmala.py', 'dlmc.py')]
TESTS = 'The existing tests run a few steps at one seed and one tiny configuration and look at shapes or at one rough average; '
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
  P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                technique=technique, note=note, observe=observe))


AI = 'abstract interpretation of the source into value-numbered normal-form terms'
RI = '; differences confirmed by random interpretation of the derived terms'
TRUST = ('Trusts the abstract semantics of the jax/numpy calls used (documented meaning) and real arithmetic without rounding; '
         'the analysed functions are never executed. An obligation whose terms fall outside the modelled fragment is reported as '
         'undecided in the evidence and never alarms. ')

exec(open(os.path.join(ROOT, 'tools', 'props.py')).read())

NA = json.load(open(os.path.join(ROOT, 'tools', 'na.json'))) if os.path.exists(os.path.join(ROOT, 'tools', 'na.json')) else []

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
  for p in sorted(P, key=lambda p: p['id']):
    a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
    if p['observe']:
      a['observe_at'] = p['observe']
    f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                        'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
na = {x['property'] for x in NA}
man = {
    'version': 1,
    'setup_cmd': 'true',
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'python3-vt check.py %s quick' % p['id'],
        'thorough_cmd': 'python3-vt check.py %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p['technique'],
        'level': 'other',
        'level_note': p['note'] + ' ' + TRUST,
    } for p in sorted(P, key=lambda p: p['id']) if p['id'] not in na],
    'not_applicable': NA,
    'notes': 'Static analysis only: check.py parses /repo on every run, interprets it abstractly and decides obligations on the derived terms. '
             'See DESIGN.md. Known findings and repaired defects are in known_findings.json.',
}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
  json.dump(man, f, indent=1)
