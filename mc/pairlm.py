"""The pair LM decoder: compiled from /repo under the controlled scheduler, and a reference that
enumerates every path and every sentence."""
import heapq
import itertools
import json
import math
import os
import re
import subprocess

from mc import cpp

INF = math.inf
# Sums of probabilities are computed to about 1/1024 for each of their parts.
TIE, TOLERANCE = 8e-3, 2e-2
SPACES = re.compile('[\t-\r \x85\xa0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000]+')


def build(c):
  """Returns the driver. Sources of the decoder are compiled with stand-ins for locks and threads
  (cpp/sched), containers that report accesses, and the n-gram counter."""
  proto = 'nisaba/translit/fst/pairlm_decoder_options.proto'
  cpp.run(['protoc', '-I', cpp.REPO, '--cpp_out', c.scratch, os.path.join(cpp.REPO, proto)])
  header = os.path.join(c.scratch, proto.replace('.proto', '.pb.h'))
  with open(header, encoding='utf8') as f:
    text = f.read()
  # Two types of string view are one in the releases the code is written for.
  text = text.replace('const std::string& epsilon_symbol() const',
                      '::mc_pb::Text epsilon_symbol() const')
  text = text.replace('const std::string& PairLMDecoderOptions::epsilon_symbol() const',
                      '::mc_pb::Text PairLMDecoderOptions::epsilon_symbol() const')
  with open(header, 'w', encoding='utf8') as f:
    f.write('''#pragma once
#include <string>
#include "absl/strings/string_view.h"
namespace mc_pb {
struct Text {
  std::string s;
  Text(absl::string_view v) : s(v) {}
  Text(const std::string &v) : s(v) {}
  operator std::string() const { return s; }
  bool empty() const { return s.empty(); }
};
}  // namespace mc_pb
''' + text)
  plain = cpp.fst_flags(c) + cpp.REPO_FLAGS + ['-I', c.scratch]
  noted = cpp.fst_flags(c, notes=True)
  inc = ['-I', cpp.CPP, '-I', cpp.CPP + '/sched', '-I', cpp.CPP + '/shim_mutex']
  watched = inc + noted + ['-include', 'pairlm_fst.h'] + cpp.REPO_FLAGS + [
      '-I', c.scratch, '-include', 'absl/synchronization/mutex.h', '-include', 'pairlm_prelude.h',
      '-include', cpp.CPP + '/sched/std_threads.h']
  t = cpp.REPO + '/nisaba/translit/fst/'
  units = [('pairlm_mc', cpp.CPP + '/pairlm_mc.cc', watched),
           ('pairlm_decoder', t + 'pairlm_decoder.cc', watched),
           ('pairlm_decoder_runner', t + 'pairlm_decoder_runner.cc', watched),
           ('wordpiece', t + 'wordpiece-segmenter.cc', plain),
           ('options', header.replace('.pb.h', '.pb.cc'), plain),
           ('sched', cpp.CPP + '/sched/sched.cc', ['-O2', '-I', cpp.CPP + '/sched'])]
  units += [(f, cpp.REPO + '/nisaba/port/' + f + '.cc', plain)
            for f in ('utf8_util', 'utf8_delimiters', 'unicode_properties', 'file', 'file_util')]
  objs = cpp.compile_all(c, units)
  return cpp.link(c, 'pairlm', objs.values(), ['-lfst', '-lprotobuf'] + cpp.absl_libs(everything=True))


def run(exe, script, path, timeout=800):
  """The results of a script (a list of lines) of commands: parsed values, and the status."""
  with open(path, 'w', encoding='utf8') as f:
    f.write('\n'.join(script) + '\n')
  try:
    r = subprocess.run([exe, path], capture_output=True, timeout=timeout, check=False)
  except subprocess.TimeoutExpired:
    return None, 'timeout', ''
  out = [json.loads(l) for l in r.stdout.decode('utf8', 'replace').splitlines()]
  return out, r.returncode, r.stderr.decode('utf8', 'replace')[-500:]


class NGram:
  """States of an n-gram model: {label: (next, cost)}, backoff (next, cost), final cost."""

  def __init__(self, states):
    self.states = states  # [(arcs, backoff or None, final cost or None)]

  def step(self, s, label):
    """Next state and cost, backing off as often as needed."""
    cost = 0.0
    while s is not None:
      arcs, back, _ = self.states[s]
      if label in arcs:
        return arcs[label][0], cost + arcs[label][1]
      if back is None:
        return None, INF
      s, cost = back[0], cost + back[1]
    return None, INF

  def final(self, s):
    if self.states[s][2] is not None:
      return self.states[s][2]
    if s == 0 or self.states[s][1] is None:
      return INF
    back, cost = self.states[s][1]
    return cost + self.final(back)

  def script(self, path, labels, extra=()):
    """labels: symbol of each label, in order of their numbers from 1."""
    number = {l: i + 1 for i, l in enumerate(labels)}
    out = ['fst\t' + path, 'sym\t0\t<epsilon>']
    out += ['sym\t%d\t%s' % (number[l], self.symbol(l)) for l in labels]
    out += ['sym\t%d\t%s' % (len(number) + 1 + i, x) for i, x in enumerate(extra)]
    for s, (arcs, back, final) in enumerate(self.states):
      for l, (n, w) in arcs.items():
        out.append('arc\t%d\t%d\t%d\t%d\t%r' % (s, n, number[l], number[l], w))
      if back is not None:
        out.append('arc\t%d\t%d\t0\t0\t%r' % (s, back[0], back[1]))
      if final is not None:
        out.append('final\t%d\t%r' % (s, final))
    return out + ['write']

  @staticmethod
  def symbol(l):
    return l if isinstance(l, str) else '%d;%d' % l


class PairModel(NGram):
  """An n-gram model over pairs (input code point, output code point), 0 for none."""
  insertions = 0

  def outputs(self, word, invert):
    """{output: least cost} of all paths for the word."""
    best = {}
    chars = [ord(x) for x in word]
    pairs = sorted({l for arcs, _, _ in self.states for l in arcs})
    stack = [(0, 0, '', 0, 0.0)]
    while stack:
      i, s, out, ins, cost = stack.pop()
      if i == len(chars):
        f = cost + self.final(s)
        if f < best.get(out, INF):
          best[out] = f
      for p in pairs:
        a, b = (p[1], p[0]) if invert else p
        if a == 0:
          if ins >= self.insertions:
            continue
        elif i == len(chars) or chars[i] != a:
          continue
        n, w = self.step(s, p)
        if n is not None:
          stack.append((i + (a != 0), n, out + (chr(b) if b else ''), ins + (a == 0), cost + w))
    return best

  def covered(self, invert):
    return {chr(l[1] if invert else l[0]) for arcs, _, _ in self.states for l in arcs} - {'\0'}


class Transducer:
  """arcs: [(from, to, input, output, cost)]; epsilons are free moves."""

  def __init__(self, arcs, finals):
    self.arcs, self.finals = arcs, finals

  def script(self, path):
    return ['fst\t' + path] + ['arc\t%d\t%d\t%d\t%d\t%r' % a for a in self.arcs] + [
        'final\t%d\t%r' % f for f in sorted(self.finals.items())] + ['write']

  def outputs(self, word, invert):
    chars = [ord(x) for x in word]
    best = {}
    todo = [(0.0, 0, 0, '')]
    seen = set()
    while todo:
      cost, i, s, out = heapq.heappop(todo)
      if (i, s, out) in seen or len(out) > len(word) + 3:
        continue
      seen.add((i, s, out))
      if i == len(chars) and s in self.finals:
        best[out] = min(best.get(out, INF), cost + self.finals[s])
      for f, t, a, b, w in self.arcs:
        if f != s:
          continue
        if invert:
          a, b = b, a
        if a and (i == len(chars) or chars[i] != a):
          continue
        heapq.heappush(todo, (cost + w, i + (a != 0), t, out + (chr(b) if b else '')))
    return best

  def covered(self, invert):
    return {chr(a[3] if invert else a[2]) for a in self.arcs} - {'\0'}


class Skip(Exception):
  """The outcome depends on how a tie is broken."""


def cut(items, k):
  """The k cheapest of (cost, value); no tie at the cut."""
  items = sorted(items)
  if len(items) > k and items[k][0] - items[k - 1][0] < TIE:
    raise Skip
  return items[:k]


def normalized(masses):
  total = sum(masses.values())
  return {x: m / total for x, m in masses.items()}


class Reference:

  def __init__(self, model=None, external=None, lm=None, **o):
    self.model, self.external, self.lm = model, external or {}, lm
    self.o = o
    self.memo = {}
    if model is not None:
      self.covers = model.covered(o.get('invert', False))
    else:
      self.covers = set()

  def segments(self, word):
    out = []
    for x in word:
      if out and (out[-1][-1] in self.covers) == (x in self.covers):
        out[-1] += x
      else:
        out.append(x)
    return out

  def given(self, word):
    return normalized({x: math.exp(-w) for x, w in self.external[word].items()})

  def unsegmented(self, word, k):
    """[(cost, output)], and whether they are those given for the word."""
    found = self.model.outputs(word, self.o.get('invert', False)) if self.model else {}
    if found:
      best = cut([(w, x) for x, w in found.items() if w < INF], k)
      if k > 1 and best and best[-1][0] > best[0][0] + self.o.get('word_cand_thresh', 12) - 1e-2:
        raise Skip
      if best:
        return best, False
    if word in self.external:
      return [(-math.log(m), x) for x, m in self.given(word).items()], True
    return [(0.0, word)], False

  def word(self, word, k):
    if (word, k) in self.memo:
      r = self.memo[word, k]
      if r is None:
        raise Skip
      return r
    self.memo[word, k] = None
    r = self.memo[word, k] = self._word(word, k)
    return r

  def _word(self, word, k):
    if word in self.external and self.o.get('override'):
      return self.given(word)
    segs = self.segments(word)
    if len(segs) > 1:
      lists = [self.unsegmented(s, k)[0] for s in segs]
      best = cut([(sum(x[0] for x in row), tuple(x[1] for x in row))
                  for row in itertools.product(*lists)], k)
      best = [(w, ''.join(x)) for w, x in best]
    else:
      best, external = self.unsegmented(word, k)
      if external:
        return self.given(word)
    factor = 1.0
    if self.model and self.external and 'pairlm_translit_weight' in self.o:
      weight = self.o['pairlm_translit_weight']
      factor = weight / (1 - weight)
    masses = {}
    for w, x in best:
      masses[x] = masses.get(x, 0.0) + math.exp(-w) * factor
    if word in self.external:
      for x, m in self.given(word).items():
        masses[x] = masses.get(x, 0.0) + m
    return normalized(masses)

  def pieces(self, text):
    """Symbols of the language model, and the cost of those it lacks."""
    o, syms = self.o, self.o['symbols']
    oov, oov_cost = o['oov'], o.get('oov_cost', 10)
    if 'pieces' in o:
      parts = list(o.get('word_initial', '\u2581') + text)
      rank = {p: i for i, p in reversed(list(enumerate(o['pieces'])))}
      while True:
        pairs = [(rank[a + b], i) for i, (a, b) in enumerate(zip(parts, parts[1:])) if a + b in rank]
        if not pairs:
          break
        i = min(pairs)[1]
        parts[i:i + 2] = [parts[i] + parts[i + 1]]
      out = [p if p in syms else oov for p in parts]
      return out, oov_cost * sum(p not in syms for p in parts)
    if o.get('internal'):
      out, cost, i, prefix = [], 0.0, 0, ''
      names = [s for s in syms if s != oov]
      while i < len(text):
        fit = [n for n in range(1, len(text) - i + 1) if prefix + text[i:i + n] in names]
        if fit:
          out.append(prefix + text[i:i + max(fit)])
          i += max(fit)
        else:
          out.append(oov)
          cost += oov_cost
          i += 1
        prefix = o['internal']
      return out, cost
    return ([text], 0.0) if text in syms else ([oov], oov_cost)

  def lm_mass(self, labels):
    """The probability of a sequence; with closure, of all ways to divide it into sequences."""
    lm = self.lm
    now = {0: 1.0}
    close = self.o.get('closure')
    if close and lm.final(0) < INF:
      raise RuntimeError('not a model for closure')

    def restart(dist):
      more = dict(dist)
      for s, m in dist.items():
        if s != 0 and lm.final(s) < INF:
          more[0] = more.get(0, 0.0) + m * math.exp(-lm.final(s))
      return more
    for l in labels:
      if close:
        now = restart(now)
      nxt = {}
      for s, m in now.items():
        n, w = lm.step(s, l)
        if n is not None:
          nxt[n] = nxt.get(n, 0.0) + m * math.exp(-w)
      now = nxt
    return sum(m * math.exp(-lm.final(s)) for s, m in now.items())

  def line(self, line, k):
    """For each word: {output: probability} of those kept, and the word."""
    words = [w for w in SPACES.split(line) if w]
    if self.lm is None:
      dists = [self.word(w, k) for w in words]
    else:
      wk = self.o.get('max_word_cands', 100)
      before = [self.word(w, wk) for w in words]
      if self.o.get('word_level'):
        sums = []
        for d in before:
          p = {}
          for x, m in d.items():
            labels, cost = self.pieces(x)
            p[x] = m * math.exp(-cost) * self.lm_mass(labels)
          sums.append(p)
        total = sum(sum(p.values()) for p in sums)
        dists = [{x: m / total for x, m in p.items()} for p in sums] if total else sums
      else:
        sums = [dict.fromkeys(d, 0.0) for d in before]
        total = 0.0
        for row in itertools.product(*before):
          labels, mass = [], 1.0
          for d, x in zip(before, row):
            more, cost = self.pieces(x)
            labels += more
            mass *= d[x] * math.exp(-cost)
          mass *= self.lm_mass(labels)
          total += mass
          for p, x in zip(sums, row):
            p[x] += mass
        dists = [{x: m / total for x, m in p.items()} for p in sums]
    out = []
    for d in dists:
      if any(m <= 0 for m in d.values()):
        raise Skip
      if len(d) > k:
        best = cut([(-math.log(m), x) for x, m in d.items()], k)
        least = self.o.get('min_cand_posterior', 0)
        if least:
          if any(abs(w + math.log(least)) < TOLERANCE for w, _ in best):
            raise Skip
          best = best[:1] + [b for b in best[1:] if b[0] <= -math.log(least)]
        d = {x: math.exp(-w) for w, x in best}
      out.append(d)
    return words, out


def parse(text):
  """Printed results: for each position, the word and {output: cost}."""
  out = {}
  for l in text.split('\n'):
    if l:
      pos, word, x, cost = l.split('\t')
      out.setdefault(int(pos), []).append((word, x, float(cost)))
  return out


def differs(printed, words, want):
  """None, or what is wrong with the printed result."""
  got = parse(printed)
  if sorted(got) != list(range(len(words))):
    return 'positions %s for %d words' % (sorted(got), len(words))
  for i, (w, d) in enumerate(zip(words, want)):
    if {g[0] for g in got[i]} != {w}:
      return 'word %s at %d' % (got[i][0][0], i)
    if len({g[1] for g in got[i]}) != len(got[i]):
      return 'the same output twice for %s' % w
    have = {g[1]: g[2] for g in got[i]}
    if set(have) != set(d):
      return '%s gives %s and not %s' % (w, sorted(have), sorted(d))
    for x, m in d.items():
      if abs(have[x] + math.log(m)) > TOLERANCE:
        return '%s to %s costs %.4f and not %.4f' % (w, x, have[x], -math.log(m))
  return None
