"""P22: the C++ text utilities decode, split and delimit exactly as Unicode says."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build as mcbuild
from mc import check, cpp


def main(c):
  c.scratch = mcbuild.scratch()
  c.root = '/repo'
  port = cpp.REPO + '/nisaba/port/'
  objs = cpp.compile_all(c, [
      ('text', cpp.CPP + '/text_mc.cc', cpp.REPO_FLAGS + ['-O2']),
      ('utf8_util', port + 'utf8_util.cc', cpp.REPO_FLAGS + ['-O2']),
      ('utf8_delimiters', port + 'utf8_delimiters.cc', cpp.REPO_FLAGS + ['-O2']),
      ('unicode_properties', port + 'unicode_properties.cc', cpp.REPO_FLAGS)])
  exe = cpp.link(c, 'text', objs.values(), cpp.absl_libs())
  n = c.jobs
  cpp.enumerate_all(c, exe, [(i, n, int(c.thorough)) for i in range(n)])


if __name__ == '__main__':
  check.run('P22', main)
