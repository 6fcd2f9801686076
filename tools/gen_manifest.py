"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    'A01': 'Random and complete instruction sets of generated types; trusts hwtypes values and their equality.',
    'A02': 'Every bit pattern of small generated types, sampled for larger ones; the reference decoder uses only layouts, '
           'tag codes and member codes.',
    'A03': 'Histories run in forked fresh processes with different hash seeds; compares observations, needs no model.',
}
DEFAULT = 'Generated-input search against an independent oracle; nothing is claimed beyond the cases explored.'
TECH = 'property-based testing (Hypothesis generators and shrinking)'
TECHS = {
    'A01': 'round-trip', 'A02': 'reference decoder over all bit patterns', 'A03': 'metamorphic: histories and hash seeds in fresh processes',
    'A04': 'invariants over generated layouts', 'A05': 'round-trip and invariants over all tag codes', 'A06': 'model-based: the ADT value',
    'A07': 'differential: symbolic vs concrete', 'F01': 'differential: plain vs rewritten programs', 'F02': 'differential: terms vs execution',
    'F03': 'differential: simulated Verilog vs execution', 'F04': 'model-based histories', 'F05': 'model-based histories and algebraic laws',
    'F06': 'model-based: generated signatures', 'F07': 'model-based: generated instructions', 'F08': 'reference slicing of simulated wrappers', 'B01': 'model-based: generated component trees',
    'B02': 'model-based histories', 'L01': 'exact rational reference model', 'L02': 'round-trip', 'E01': 'reference packing',
    'E02': 'round-trip', 'M01': 'solved rules executed exhaustively', 'M02': 'exhaustive enumeration of the rule space',
    'M03': 'verdicts vs exhaustive execution', 'M04': 'exhaustive enumeration under constraints', 'M05': 'round-trip', 'M06': 'brute force enumeration',
    'M07': 'truth tables', 'M08': 'reference decomposition', 'M09': 'reference placement of leaf values', 'M10': 'exhaustive search over programs',
    'M11': 'brute force truth tables', 'M12': 'exhaustive enumeration of interpretations',
}
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{V}/pbt/checks/{i.lower()}.py'):
        checks.append(dict(property=i, quick_cmd=f'/opt/venv/bin/python run.py {i}',
                           thorough_cmd=f'/opt/venv/bin/python run.py {i} --tier thorough',
                           technique=f'{TECH}: {TECHS[i]}', level='exploration', level_note=NOTES.get(i, DEFAULT)))
    else:
        na.append(dict(property=i, reason='no check built yet'))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup.py', checks=checks, not_applicable=na,
               notes='No hooks: every check observes public interfaces. See DESIGN.md.'),
          open(f'{V}/MANIFEST.json', 'w'), indent=1)
open(f'{V}/MANIFEST.json', 'a').write('\n')
