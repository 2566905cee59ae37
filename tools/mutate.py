"""Mutants of the repository's sources: mutate.py FILE N SEED prints N of them as JSON lines
{"file", "start", "end", "old", "new", "line"} (character offsets). Development aid only: checks
never run it."""
import ast
import json
import random
import re
import sys

SWAP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>',
        ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}


def python(text):
  lines = [0]
  for l in text.splitlines(True):
    lines.append(lines[-1] + len(l))
  src = text.splitlines(True)

  def at(line, col):
    return lines[line - 1] + len(src[line - 1].encode()[:col].decode())
  span = lambda n: (at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset))
  seg = lambda n: text[slice(*span(n))]
  out = []
  skip = set()
  tree = ast.parse(text)
  for n in ast.walk(tree):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(
        n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
      skip.add(n.body[0]); skip.add(n.body[0].value)
    if isinstance(n, (ast.arg, ast.AnnAssign)) and n.annotation:
      skip.update(ast.walk(n.annotation))
    if isinstance(n, ast.FunctionDef) and n.returns:
      skip.update(ast.walk(n.returns))
    if isinstance(n, ast.Raise):
      skip.update(ast.walk(n))
    if isinstance(n, ast.If) and 'absl' in seg(n.test):
      skip.update(ast.walk(n))
  for n in ast.walk(tree):
    if n in skip:
      continue
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
      a, b = span(n.left)[1], span(n.comparators[0])[0]
      out.append((a, b, ' ' + SWAP[type(n.ops[0])] + ' '))
    elif isinstance(n, ast.BoolOp):
      a, b = span(n.values[0])[1], span(n.values[1])[0]
      out.append((a, b, ' or ' if isinstance(n.op, ast.And) else ' and '))
      out.append(span(n) + (seg(n.values[0]),))
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
      out.append(span(n) + (seg(n.operand),))
    elif isinstance(n, ast.Constant):
      if isinstance(n.value, bool):
        out.append(span(n) + (str(not n.value),))
      elif isinstance(n.value, int):
        out.append(span(n) + (str(n.value + 1),))
      elif isinstance(n.value, str) and n.value and seg(n)[:1] in '\'"' and '\n' not in seg(n):
        out.append(span(n) + (repr(n.value[:-1]),))
    elif isinstance(n, (ast.List, ast.Tuple, ast.Set)) and len(n.elts) > 1 and isinstance(
        getattr(n, 'ctx', ast.Load()), ast.Load):
      for i, e in enumerate(n.elts):
        if i + 1 < len(n.elts):
          out.append((span(e)[0], span(n.elts[i + 1])[0], ''))
          out.append((span(e)[0], span(n.elts[i + 1])[1], seg(n.elts[i + 1]) + ', ' + seg(e)))
        else:
          out.append((span(n.elts[i - 1])[1], span(e)[1], ''))
    elif isinstance(n, ast.BinOp):
      out.append(span(n) + (seg(n.left),))
      out.append(span(n) + (seg(n.right),))
      out.append(span(n) + ('(%s) %s (%s)' % (seg(n.right), {
          ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.MatMult: '@', ast.BitOr: '|'
      }.get(type(n.op), '+'), seg(n.left)),))
    elif isinstance(n, ast.Call):
      for i, e in enumerate(n.args[:-1]):
        f = n.args[i + 1]
        out.append((span(e)[0], span(f)[1], seg(f) + ', ' + seg(e)))
        if len(n.args) > 2:
          out.append((span(e)[0], span(f)[0], ''))
      for k in n.keywords:
        if k.arg:
          a = span(k)[0]
          prev = text.rfind(',', 0, a)
          out.append((prev if prev > span(n.func)[1] else a, span(k)[1], ''))
    elif isinstance(n, ast.Attribute) and n.attr in ('star', 'plus', 'ques'):
      out.append((span(n)[1] - len(n.attr), span(n)[1], 'ques' if n.attr != 'ques' else 'star'))
    elif isinstance(n, (ast.AugAssign, ast.Expr, ast.Continue, ast.Break)):
      out.append(span(n) + ('pass',))
    elif isinstance(n, ast.If):
      out.append(span(n.test) + ('(%s) and False' % seg(n.test),))
      out.append(span(n.test) + ('(%s) or True' % seg(n.test),))
    elif isinstance(n, ast.IfExp):
      out.append(span(n) + (seg(n.body),))
      out.append(span(n) + (seg(n.orelse),))
    elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Call) and n.value.args:
      out.append(span(n.value) + (seg(n.value.args[0]),))
  return out


CPP = [(r'==', '!='), (r'!=', '=='), (r'<=', '<'), (r'>=', '>'), (r'(?<=[\w)\]]) < (?=[\w(])', ' <= '),
       (r'(?<=[\w)\]]) > (?=[\w(])', ' >= '), (r'&&', '||'), (r'\|\|', '&&'), (r'\btrue\b', 'false'),
       (r'\bfalse\b', 'true'), (r'(?<=[\w)\]]) \+ (?=[\w(])', ' - '), (r'(?<=[\w)\]]) - (?=[\w(])', ' + '),
       (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\+\+', '--'), (r'\+=', '-='), (r'!(?=[a-z(])', ''),
       (r'\bcontinue;', ''), (r'\bbreak;', ''), (r'\bmin\(', 'max('), (r'\bmax\(', 'min('),
       (r'notify_all', 'notify_one'), (r'\bSignalAll', 'Signal'), (r'-log\(', 'log('),
       (r'(?m)^ +[\w.>\-()*]+\([^;{}]*\);$', ';'), (r'(?m)^ +[\w\[\].]+ = [^;{}]*;$', ';')]


def cpp(text):
  out = []
  for pattern, new in CPP:
    for m in re.finditer(pattern, text):
      line = text[text.rfind('\n', 0, m.start()) + 1:text.find('\n', m.start())]
      if re.match(r'\s*(//|#|using|LOG|template|namespace)', line) or '//' in line[:m.start()] and (
          m.start() - text.rfind('\n', 0, m.start()) - 1 > line.find('//')):
        continue
      if 'CHECK' in line or 'LOG(' in line or 'flag' in line.lower():
        continue
      out.append((m.start(), m.end(), new))
  return out


def main():
  path, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
  text = open('/repo/' + path, encoding='utf8').read()
  found = python(text) if path.endswith('.py') else cpp(text)
  random.Random(path + str(seed)).shuffle(found)
  done = 0
  for a, b, new in found:
    whole = text[:a] + new + text[b:]
    if text[a:b].strip() == new.strip():
      continue
    if path.endswith('.py'):
      try:
        compile(whole, path, 'exec')
      except SyntaxError:
        continue
    print(json.dumps({'file': path, 'start': a, 'end': b, 'old': text[a:b], 'new': new,
                      'line': text.count('\n', 0, a) + 1}))
    done += 1
    if done == n:
      break


if __name__ == '__main__':
  main()
