"""Compiles harnesses together with C++ sources of /repo's working tree."""
import os
import re
import subprocess

from mc import build as mcbuild

VERIF = mcbuild.VERIF
REPO = mcbuild.REPO
CPP = os.path.join(VERIF, 'cpp')
ABSL = ('strings strings_internal raw_hash_set hash city low_level_hash base '
        'raw_logging_internal throw_delegate status statusor int128 spinlock_wait '
        'malloc_internal synchronization time time_zone str_format_internal '
        'cord cordz_info cord_internal cordz_functions cordz_handle '
        'exponential_biased stacktrace symbolize debugging_internal '
        'demangle_internal graphcycles_internal strerror random_internal_seed_material').split()


class CompileError(Exception):
  pass


def run(cmd):
  r = subprocess.run(cmd, capture_output=True, text=True, check=False)
  if r.returncode:
    raise CompileError(' '.join(cmd) + '\n' + r.stderr[-3000:])


def compile_all(c, units, jobs=True):
  """units: list of (name, source, flags). Returns {name: object file}."""
  out = {}

  def one(u):
    name, src, flags = u
    o = os.path.join(c.scratch, name + '.o')
    run(['g++', '-std=c++17'] + flags + ['-c', src, '-o', o])
    out[name] = o
  c.each(one, units)
  return out


def link(c, name, objects, libs=()):
  exe = os.path.join(c.scratch, name)
  run(['g++'] + list(objects) + ['-o', exe] + list(libs))
  return exe


def fst_flags(c, notes=False):
  """OpenFst's symbol table with lookups by absl::string_view too, which newer releases have
  because the two string views are one type there. Also what those releases include.
  With notes, changes to automata and uses of symbol tables are reported to the race detector."""
  d = os.path.join(c.scratch, 'newer_notes' if notes else 'newer')
  os.makedirs(d + '/fst', exist_ok=True)
  src = next(p for p in ('/usr/local/include/fst/symbol-table.h', '/usr/include/fst/symbol-table.h')
             if os.path.exists(p))
  with open(src, encoding='utf8') as f:
    text = f.read()
  for name, ret, const in (('Find', 'int64', ' const'), ('AddSymbol', 'int64', '')):
    at = text.index('  %s %s(SymbolType symbol)' % (ret, name), text.index('class SymbolTable {'))
    text = text[:at] + (
        '  template <class S, class = std::enable_if_t<std::is_same_v<S, absl::string_view>>>\n'
        '  %s %s(S s)%s { return %s(SymbolType(s.data(), s.size())); }\n' % (ret, name, const, name)
    ) + text[at:]
  if notes:
    at = text.index('class SymbolTable {')
    body, n = re.subn(r'(\n  (?:int64|std::string) Find\((?:SymbolType symbol|int64 key)\) const \{)',
                      r'\1 ::mc::Note(this, false);', text[at:])
    body, m = re.subn(r'(\n  int64 AddSymbol\(SymbolType symbol(?:, int64 key)?\) \{)',
                      r'\1 ::mc::Note(this, true);', body)
    with open(os.path.join(os.path.dirname(src), 'mutable-fst.h'), encoding='utf8') as f:
      fst = f.read()
    mutate = '  void MutateCheck() {\n'
    if n != 2 or m != 2 or fst.count(mutate) != 1:
      raise CompileError('OpenFst is not as expected')
    text = '#include "mcsched.h"\n' + text[:at] + body
    with open(d + '/fst/mutable-fst.h', 'w', encoding='utf8') as f:
      f.write('#include "mcsched.h"\n' + fst.replace(mutate, mutate + '    ::mc::Note(this, true);\n'))
  with open(d + '/fst/symbol-table.h', 'w', encoding='utf8') as f:
    f.write('#include "absl/strings/string_view.h"\n' + text)
  return ['-I', d, '-include', 'absl/types/span.h']


def absl_libs(everything=False):
  have = []
  for d in ('/usr/lib/x86_64-linux-gnu', '/usr/lib', '/usr/local/lib'):
    if os.path.isdir(d):
      have += os.listdir(d)
  if everything:
    return ['-Wl,--start-group'] + sorted(
        {'-l' + f[3:-2] for f in have if f.startswith('libabsl_') and f.endswith('.a')
         and 'test' not in f and 'mock' not in f}) + ['-Wl,--end-group', '-lpthread', '-ldl']
  libs = ['-labsl_' + x for x in ABSL if any(
      h in have for h in ('libabsl_%s.a' % x, 'libabsl_%s.so' % x))]
  return ['-Wl,--start-group'] + libs + ['-Wl,--end-group', '-lpthread', '-ldl']


REPO_FLAGS = ['-O1', '-w', '-I', CPP, '-I', CPP + '/shim_log', '-I', REPO, '-I',
              '/usr/include/utf8cpp']


def enumerate_all(c, exe, arg_lists, timeout=850, env=None):
  """Runs the harness once per argument list; takes over its counts and violations."""
  import json

  def one(args):
    try:
      r = subprocess.run([exe] + [str(a) for a in args], capture_output=True, timeout=timeout,
                         check=False, env=dict(os.environ, **(env or {})))
    except subprocess.TimeoutExpired:
      return args, None, [], ''
    lines = []
    for l in r.stdout.decode('utf8', 'replace').splitlines():
      try:
        lines.append(json.loads(l))
      except ValueError:
        pass
    return args, r.returncode, lines, r.stderr.decode('utf8', 'replace')[-600:]
  totals = {}
  for args, code, lines, err in c.each(one, arg_lists):
    if code is None:
      c.notes['cut short'] = str(args)
      continue
    if not any('done' in l for l in lines):
      c.violation('the enumeration ends early', status=code, stderr=err, arguments=str(args))
    for l in lines:
      if 'violation' in l:
        c.violation('%s [%s]' % (l['violation'], l['input']), input=l['input'], got=l['got'],
                    want=l['want'])
      elif 'part' in l:
        t = totals.setdefault(l['part'], [0, 0])
        t[0] += l['cases']
        t[1] += l['checks']
  c.direct = True
  for part in sorted(totals):
    c.count(part, states=totals[part][0], transitions=totals[part][1],
            evaluations=totals[part][1])
    c.sample({'part': part, 'cases': totals[part][0]})
