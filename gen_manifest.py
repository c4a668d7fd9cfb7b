#!/usr/bin/env python3
"""Writes MANIFEST.json and the generated parts of DESIGN.md from checks/config.py, properties.jsonl and seeded/*/meta.json"""
import json, os, re, glob
from checks.config import CHECKS, NOT_APPLICABLE
here = os.path.dirname(os.path.abspath(__file__))
properties = [json.loads(line) for line in open(os.path.join(here, 'properties.jsonl'), encoding='utf-8') if line.strip()]
known = [p['id'] for p in properties]
TECHNIQUE = 'model checking: stateless exhaustive exploration of the real code under a controlled environment, against a reference model'
checks = []
for prop, cfg in sorted(CHECKS.items()):
	assert prop in known
	checks.append({'property': prop, 'quick_cmd': 'python3 run.py %s quick' % prop, 'thorough_cmd': 'python3 run.py %s thorough' % prop,
			'technique': cfg.get('technique', TECHNIQUE),
			'level': 'model_checking', 'level_note': 'Exhaustive within: ' + cfg['bounds'] + '. ' + cfg.get('trusts', 'Nothing is claimed beyond these bounds; the reference model and the strict parsers of the harness are trusted')})
missing = [{'property': p, 'reason': NOT_APPLICABLE.get(p, 'No check exists yet')} for p in known if p not in CHECKS]
manifest = {'version': 1, 'setup_cmd': 'python3 -c "import checks.config"', 'checks': checks, 'not_applicable': missing}
json.dump(manifest, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)

text = ''
for p in properties:
	text += '\n### %s %s\n\n%s\n\n' % (p['id'], p['title'], p['statement'])
	cfg = CHECKS.get(p['id'])
	if not cfg:
		text += 'Not checked: %s\n' % NOT_APPLICABLE.get(p['id'], 'no check exists yet.')
		continue
	sources = sorted(set(s if isinstance(s, str) else s[0] for s in cfg['sources']))
	text += '* Harness: %s\n* Explored exhaustively: %s.\n' % (', '.join('`checks/%s`' % s for s in sources), cfg['bounds'])
	if cfg.get('binding'):
		text += '* Oracle: %s.\n' % cfg['binding']
	text += '* Why tests cannot: %s\n' % p['why_tests_cant']
	if cfg.get('cost'):
		text += '* Cost: %s\n' % cfg['cost']
seeded = '\n| Bug | Property | What it needs | Caught by |\n|---|---|---|---|\n'
results = json.load(open(os.path.join(here, 'seeded_results.json'))) if os.path.exists(os.path.join(here, 'seeded_results.json')) else {}
for path in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
	meta = json.load(open(path)); ident = os.path.basename(os.path.dirname(path))
	seeded += '| %s | %s | %s: %s | %s |\n' % (ident, meta['property'], meta['needs'], meta['what_it_breaks'], results.get(ident, '?'))
design = open(os.path.join(here, 'DESIGN.md'), encoding='utf-8').read()
design = re.sub(r'(?s)(<!-- generated by gen_manifest.py -->\n).*(<!-- end -->)', lambda m: m[1] + text + '\n' + m[2], design)
design = re.sub(r'(?s)(<!-- seeded -->\n).*(<!-- end seeded -->)', lambda m: m[1] + seeded + '\n' + m[2], design)
open(os.path.join(here, 'DESIGN.md'), 'w', encoding='utf-8').write(design)
