#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED lists the properties with a working check."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = open(os.path.join(HERE, 'tools', 'claimed.txt')).read().split()
TECH = {
 'P01': ('round-trip and differential property test over generated fonts', 'generated fonts up to full-size sections; encoder written from the specification as second source'),
 'P02': ('model-based property test of header and metrics', 'all string lengths 0-65535 reachable, every metric value'),
 'P03': ('model-based property test of glyph data', 'up to 120 glyphs, and tens of thousands in 1-2 % of the cases; masks up to 12x12 plus the mask properties'),
 'P04': ('model-based property test of color sections', 'every total up to 255 colors'),
 'P05': ('model-based property test of settings and words', 'up to 60 settings, 255 options'),
 'P06': ('model-based property test of code point mappings', 'all mapped code points, neighbours and sampled others under 4 settings assignments per font'),
 'P07': ('model-based property test of kerning tables', 'up to 300 pairs per table, and tens of thousands in 1-2 % of the cases'),
 'P08': ('model-based property test of rewrite data accessors', 'up to 40 rules and 12 sets per font, and thousands in 1-2 % of the cases'),
 'P09': ('structure-aware fuzzing of Parse with mutated and spliced fonts, reader differential', 'deterministic generated mutations, no native fuzzing'),
 'P10': ('fault enumeration by generated truncation, extension and corruption of valid fonts', 'every cut point reachable; sampled per font'),
 'P11': ('round-trip property test of mask encoding', 'masks up to 600x600'),
 'P12': ('differential property test against an interpreter of the raster operation format', 'up to 20 operations per sequence'),
 'P13': ('stateful model-based test of the mapping cache', 'histories up to a few hundred operations'),
 'P14': ('stateful model-based test of the settings cache', 'histories up to a few hundred operations'),
 'P15': ('differential property test against a boolean evaluator', 'nested conditions, up to 254 per font'),
 'P16': ('differential property test against a reference rewriter (glyphs)', 'rule sets of up to ~12 rules over small alphabets plus larger ones'),
 'P17': ('differential property test against a reference rewriter (utf8)', 'rule sets of up to ~12 rules over small alphabets plus larger ones'),
 'P18': ('fuzzing of rewrite rules with mutated and random rule bytes', 'generated rule bytes'),
 'P19': ('stateful property test: tester after a history versus a fresh tester', 'histories up to ~30 operations'),
 'P20': ('stateful property test of builder call sequences', 'sequences up to ~80 calls'),
 'P21': ('property test against a calendar model, with the small domain enumerated across cases', 'all months and days, sampled and boundary years'),
 'P22': ('property test of name and string acceptance against the specification grammar', 'generated and mutated names'),
 'P23': ('stateful model-based test of set editing', 'histories up to ~80 calls'),
 'P24': ('stateful model-based test of ring buffer and flag list', 'histories up to a few hundred operations'),
 'P25': ('structure-aware fuzzing of edition data with a model of its effects', 'generated well-formed and mutated data'),
 'P26': ('stateful metamorphic test: refused calls leave dumps and builds unchanged', 'sequences up to ~60 calls'),
 'P27': ('metamorphic test: snapshots before and after caller mutations', 'all slice and mask taking calls'),
 'P28': ('randomized concurrent workloads under the race detector, compared with sequential runs', 'sampled schedules; the race detector flags unsynchronised access in executed paths'),
 'P29': ('boundary-value property test of declared counts and sizes on otherwise consistent fonts', '32 kinds of limits in turns, all element counts in range'),
}
checks = []
for pid in CLAIMED:
    tech, note = TECH[pid]
    checks.append({
        'property': pid,
        'quick_cmd': f'bash run.sh {pid} quick',
        'thorough_cmd': f'bash run.sh {pid} thorough',
        'technique': 'property-based testing: ' + tech,
        'level': 'exploration',
        'level_note': note,
    })
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
na = [{'property': p, 'reason': 'check under construction'} for p in props if p not in CLAIMED]
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
