#!/bin/sh
# tools/detect.sh ID...: runs the check of each planted bug against a copy of
# the repository ($MDPO_REPO or /repo) with it.
cd "$(dirname "$0")/.." || exit 3
for id in "$@"; do
    pid=$(sed -n 's/.*"property": "\(C[0-9]*\)".*/\1/p' "seeded/$id/meta.json")
    copy=$(mktemp -d /tmp/detect-XXXXXX)
    cp -a "${MDPO_REPO:-/repo}/." "$copy"
    git -C "$copy" apply "$PWD/seeded/$id/patch.diff" || echo "$id: no patch"
    MDPO_REPO=$copy ./run "${CHECK:-$pid}" > "$copy.out" 2>&1; rc=$?
    echo "$id (${CHECK:-$pid}): exit $rc $(grep -c ^VIOLATION "$copy.out") $(grep -a "^C.. quick" "$copy.out" | sed 's/.*violations/violations/')"
    python3 -c "import shutil, os, sys; shutil.rmtree(sys.argv[1]); os.unlink(sys.argv[1] + '.out')" "$copy"
done
