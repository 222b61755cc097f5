""" Regenerates MANIFEST.json from properties.jsonl and props/. """
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
NOTES = {}
exec(open(os.path.join(HERE, 'level_notes.py')).read())  # defines NOTES

checks, missing = [], []
for line in open(os.path.join(VERIF, 'properties.jsonl')):
    prop = json.loads(line)
    pid = prop['id']
    if os.path.exists(os.path.join(HERE, 'props', pid.lower() + '.py')):
        checks.append({
            'property': pid,
            'quick_cmd': './check %s --tier quick' % pid,
            'thorough_cmd': './check %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': 'property-based testing (Hypothesis, structured '
                         'generation and shrinking) against ' + NOTES[pid][0],
            'level': 'exploration',
            'level_note': NOTES[pid][1]})
    else:
        missing.append({'property': pid,
                        'reason': 'no check has been built yet'})
json.dump({
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': missing,
    'notes': 'No hooks are needed: every check drives the public API of '
             '/repo directly (pure Python, nothing to build).'},
    open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
