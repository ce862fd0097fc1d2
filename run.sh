#!/bin/bash
# usage: run.sh <property id> [--tier quick|thorough] [--seed N] [--cases N] [--workers N] [--replay FILE]
# Builds the harness of one property against the working tree of /repo and runs it.
# exit 0: held on everything explored; 1: violated (VIOLATION line on stdout); 2: could not build.
set -u
id=$1; shift
here=$(cd "$(dirname "$0")" && pwd)
export VX_REPO=${VX_REPO:-/repo}
mkdir -p "$here/build" "$here/evidence"
if ! make -s -j8 -C "$here" -f engine/check.mk ID="$id" REPO="$VX_REPO" all >"$here/build/$id.log" 2>&1; then

  tail -30 "$here/build/$id.log" >&2; echo "build of $id failed" >&2; exit 2
fi
export ASAN_OPTIONS=detect_leaks=0:exitcode=99:allocator_may_return_null=0:handle_abort=0:detect_stack_use_after_return=1:max_malloc_fill_size=65536:malloc_fill_byte=190:max_free_fill_size=4096:free_fill_byte=165:quarantine_size_mb=16:symbolize=0
export OPENSSL_CONF=/dev/null LC_ALL=C TZ=XXX-5:45
known() { grep -E "^KNOWN property=$id " "$here/known_findings.txt" 2>/dev/null | sed -E 's/^KNOWN property=([A-Z0-9]+) key=[^ ]+ /KNOWN-FINDING: property=\1 /'; }
known
cd "$here" || exit 2
exec "$here/build/$id/check" --dir "$here" "$@"
