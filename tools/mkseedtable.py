"""Rewrites the table of seeded bugs in DESIGN.md (between its two markers)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
 'filter-run-256': 'missed until the long fillers came in several kinds; C02 sees it, C01 does not',
 'wordpiece-maxterm': 'missed until vocabularies were also loaded from files',
 'slice-shared': 'missed until slices were edited apart',
 'slice-shift-nested': 'missed until slices by original range were taken twice',
 'sequence-error-last': 'missed until a member of a sequence could empty the text',
 'drop-inserted-split': 'missed until splits were edited between two passes',
 'rune-surrogate': 'missed until delimiters that are no characters were tried',
 'sequence-dedupe': 'missed until a sequence could hold a normalizer twice',
}
MISSED.update(json.load(open(V + '/tools/seednotes.json')) if os.path.exists(V + '/tools/seednotes.json') else {})
rows = []
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    note = MISSED.get(i, '')
    rows.append((m['property'], i, m['needs'], note))
rows.sort()
out = '| property | change | needs | |\n|---|---|---|---|\n'
for p, i, n, note in rows:
    out += '| %s | %s | %s | %s |\n' % (p, i, n.replace('|', '/'), note)
s = open(V + '/DESIGN.md').read()
a, b = '<!-- seeded -->\n', '<!-- /seeded -->'
s = s[:s.index(a) + len(a)] + '\n' + out + '\n' + s[s.index(b):]
open(V + '/DESIGN.md', 'w').write(s)
print(len(rows), 'seeded bugs')
