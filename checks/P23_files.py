"""P23: the C++ file classes write and read back exactly the given bytes."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build as mcbuild
from mc import check, cpp


def main(c):
  c.scratch = mcbuild.scratch()
  c.root = '/repo'
  port = cpp.REPO + '/nisaba/port/'
  objs = cpp.compile_all(c, [('files', cpp.CPP + '/files_mc.cc', cpp.REPO_FLAGS)] + [
      (f, port + f + '.cc', cpp.REPO_FLAGS) for f in ('file', 'file_util', 'proto_file_stream')])
  exe = cpp.link(c, 'files', objs.values(), ['-lprotobuf'] + cpp.absl_libs())
  n = c.jobs
  cpp.enumerate_all(c, exe, [(i, n, int(c.thorough), c.scratch) for i in range(n)])


if __name__ == '__main__':
  check.run('P23', main)
