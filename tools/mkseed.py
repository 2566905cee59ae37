"""mkseed.seed(id, property, edits, needs, breaks, demo): writes /verif/seeded/<id>/.

edits: [(file, old, new)], each old occurring once in the file. demo: Python code (or a shell
script when it starts with '#!').
"""
import difflib, json, os, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seed(sid, prop, edits, needs, breaks, demo):
  d = os.path.join(VERIF, 'seeded', sid)
  os.makedirs(d, exist_ok=True)
  texts = {}
  for f, old, new in edits:
    t = texts.setdefault(f, open('/repo/' + f, encoding='utf8').read())
    assert t.count(old) == 1, (sid, f, t.count(old), old)
    texts[f] = t.replace(old, new)
  out = []
  for f, t in texts.items():
    o = open('/repo/' + f, encoding='utf8').read()
    for l in difflib.unified_diff(o.splitlines(True), t.splitlines(True), 'a/' + f, 'b/' + f):
      out.append(l if l.endswith('\n') else l + '\n\\ No newline at end of file\n')
  with open(d + '/patch.diff', 'w', encoding='utf8') as f:
    f.write(''.join(out))
  with open(d + '/meta.json', 'w') as f:
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, f, indent=1)
    f.write('\n')
  if demo.startswith('#!'):
    open(d + '/demo.sh', 'w').write(demo)
  else:
    open(d + '/demo.py', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n. "$(dirname "$0")/env.sh"\n"$PY" "$HERE/demo.py"\n')
  shutil.copy(os.path.join(VERIF, 'tools/seedlib/env.sh'), d)


def seed_cpp(sid, prop, edits, needs, breaks, sources, code):
  """A seed whose demonstration is a C++ program linked with sources of /repo/nisaba."""
  seed(sid, prop, edits, needs, breaks,
       '#!/bin/bash\n. "$(dirname "$0")/cppenv.sh"\ncompile %s\n' % ' '.join(sources))
  d = os.path.join(VERIF, 'seeded', sid)
  os.remove(d + '/env.sh')
  shutil.copy(os.path.join(VERIF, 'tools/seedlib/cpp/cppenv.sh'), d)
  shutil.copytree(os.path.join(VERIF, 'tools/seedlib/cpp/shim'), d + '/shim', dirs_exist_ok=True)
  open(d + '/demo.cc', 'w').write(code)
