#!/bin/bash
# run.sh <ID>: build the check <ID> from /repo's working tree and run it (tier from VERIF_TIER).
ID="${1:?usage: run.sh ID}"; shift
V="$(cd "$(dirname "$0")" && pwd)"
R="${VERIF_REPO:-/repo}"
# The build directory is named after the content of everything that goes into it, so that a file whose time stamp
# is older than an object file is never taken for unchanged. (VERIF_BUILD: a directory to build in by time stamps.)
if [ -z "$VERIF_BUILD" ]; then
  H=$( (cd "$R" && find src include CMakeLists.txt CMakeModules -type f -print0 | sort -z | xargs -0 sha256sum; cd "$V" && find checks lib tools/genbuild.py -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-16 )
  mkdir -p "$V/build"
  for d in "$V"/build/t-*; do [ -d "$d" ] && [ "$d" != "$V/build/t-$H" ] && rm -rf "$d"; done
  export VERIF_BUILD="$V/build/t-$H"
fi
B="$VERIF_BUILD"
export ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:log_path=/dev/null"
python3 "$V/tools/genbuild.py" || { echo "configuration failed" >&2; exit 2; }
if ! ninja -C "$B" "$ID" > "$B/$ID.buildlog" 2>&1; then tail -40 "$B/$ID.buildlog" >&2; echo "build failed" >&2; exit 2; fi
mkdir -p "$V/evidence" "$V/replays"
TIER="${VERIF_TIER:-quick}"
BUDGET=500; [ "$TIER" = thorough ] && BUDGET="${VERIF_BUDGET:-780}"
exec "$B/bin/$ID" --tier "$TIER" --evidence "$V/evidence/$ID.json" --replaydir "$V/replays" --known "$V/known_findings.txt" --budget "$BUDGET" "$@"
