# Sourced by demo.sh: a scratch tree of /repo's sources and what build.sh made, to run in.
T=$(mktemp -d /tmp/nisaba_demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/com_google_nisaba" "$T/tmp"
cp -rs /repo/nisaba "$T/com_google_nisaba/" 2>/dev/null
cp -rsf /opt/nisaba-build/out/nisaba "$T/com_google_nisaba/" 2>/dev/null
export PYTHONPATH="$T/com_google_nisaba:/opt/vp/nis/shim" RUNFILES_DIR="$T" TEST_SRCDIR="$T" \
  TEST_WORKSPACE=com_google_nisaba TEST_TMPDIR="$T/tmp" TMPDIR="$T/tmp" \
  PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LANG=C.UTF-8 LC_ALL=C.UTF-8
PY=/opt/venv/bin/python
HERE=$(cd "$(dirname "$0")" && pwd)
