"""Puts DESIGN.md together: text, the findings as recorded, the planted bugs as recorded."""
import collections
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
read = lambda p: open(os.path.join(ROOT, p), encoding='utf8').read()

out = [read('tools/design_head.md').rstrip(), '']
findings = json.loads(read('known_findings.json'))['findings']
out += ['## 4. Genuine defects', '', '### Repaired', '',
        'Each in its own `fix:` commit; the check reports it again when the commit is reverted.', '']
for f in findings:
  if f['status'] == 'fixed':
    pid, commit, what = f['what'][len('fixed: property='):].split(' ', 2)
    out.append('* %s, `%s`: %s.' % (pid, commit, what))
out += ['', '### Recorded (known findings)', '']
groups = collections.OrderedDict()
for f in findings:
  if f['status'] != 'fixed':
    groups.setdefault((f['property'], f['what']), []).append(f['site'])
for (pid, what), sites in groups.items():
  out.append('* %s: %s\n  Sites: %s.' % (pid, what.rstrip('.') + '.', '; '.join('`%s`' % s for s in sites)))
out += ['', read('tools/design_tail.md').rstrip(), '']
out += ['| planted bug | property | caught | what it breaks | what it needs |', '|---|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
  m = json.loads(read('seeded/%s/meta.json' % d))
  cell = lambda s: str(s).replace('|', '\\|').replace('\n', ' ')
  out.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m.get('caught', 'yes'),
                                            cell(m['what_it_breaks']), cell(m['needs'])))
out += ['', read('tools/design_end.md').rstrip(), '']
with open(os.path.join(ROOT, 'DESIGN.md'), 'w', encoding='utf8') as f:
  f.write('\n'.join(out))
