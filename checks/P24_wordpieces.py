"""P24: word-piece segmentation merges by rank, and loses nothing."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build as mcbuild
from mc import check, cpp


def main(c):
  c.scratch = mcbuild.scratch()
  c.root = '/repo'
  port = cpp.REPO + '/nisaba/port/'
  objs = cpp.compile_all(c, [
      ('wordpiece_mc', cpp.CPP + '/wordpiece_mc.cc', cpp.REPO_FLAGS),
      ('wordpiece', cpp.REPO + '/nisaba/translit/fst/wordpiece-segmenter.cc', cpp.REPO_FLAGS)] + [
          (f, port + f + '.cc', cpp.REPO_FLAGS)
          for f in ('utf8_util', 'utf8_delimiters', 'unicode_properties')])
  exe = cpp.link(c, 'wordpiece', objs.values(), ['-lfst'] + cpp.absl_libs())
  n = c.jobs
  cpp.enumerate_all(c, exe, [(i, n, int(c.thorough), c.scratch) for i in range(n)])


if __name__ == '__main__':
  check.run('P24', main)
