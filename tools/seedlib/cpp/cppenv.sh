# Sourced by demo.sh: compile <sources of /repo>... -- compiles demo.cc beside it and runs it.
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/nisaba_demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
compile() {
  local src=() lib
  for f in "$@"; do src+=("/repo/nisaba/$f.cc"); done
  lib=$(ls /usr/lib/x86_64-linux-gnu/libabsl_*.a /usr/lib/x86_64-linux-gnu/libabsl_*.so 2>/dev/null |
        grep -vE 'test|flags|mock' | sed 's,.*/lib\(.*\)\.[a-z]*$,-l\1,' | sort -u)
  g++ -std=c++17 -O1 -w -I "$HERE/shim" -I /repo -I /usr/include/utf8cpp "$HERE/demo.cc" "${src[@]}" \
    -o "$T/demo" -lfst -lprotobuf -Wl,--start-group $lib -Wl,--end-group -lpthread -ldl || exit 99
  cd "$T" && TMPDIR="$T" timeout 60 "$T/demo"
}
