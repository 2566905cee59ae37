"""P26: k-best extraction, rejoining and ensembling give exactly the best, with their weights."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build as mcbuild
from mc import check, cpp


def main(c):
  c.scratch = mcbuild.scratch()
  c.root = '/repo'
  port = cpp.REPO + '/nisaba/port/'
  flags = cpp.fst_flags(c) + cpp.REPO_FLAGS
  objs = cpp.compile_all(c, [
      ('kbest_mc', cpp.CPP + '/kbest_mc.cc', flags),
      ('kbest', cpp.REPO + '/nisaba/translit/tools/kbest-full-string-util.cc', flags)] + [
          (f, port + f + '.cc', flags)
          for f in ('utf8_util', 'utf8_delimiters', 'unicode_properties', 'file', 'file_util')])
  exe = cpp.link(c, 'kbest', objs.values(), ['-lfst', '-lprotobuf'] + cpp.absl_libs())
  n = c.jobs
  cpp.enumerate_all(c, exe, [(i, n, int(c.thorough), c.scratch) for i in range(n)])


if __name__ == '__main__':
  check.run('P26', main)
