#!/bin/bash
# try.sh (-R COMMIT | PATCH) ID... : run checks against a scratch copy of /repo
# with a commit undone or a patch applied.  Prints the verdict of each.
set -u
W=$(mktemp -d /tmp/vtry.XXXXXX); trap 'rm -rf "$W"' EXIT
git -C /repo archive HEAD | tar -x -C "$W"
cd "$W" && git init -q . && git add -A . && git -c user.email=a@b -c user.name=x commit -qm x
if [ "$1" = -R ]; then git -C /repo show "$2" | git apply -R - || { echo "cannot undo"; exit 2; }; shift 2
else git apply "$1" || { echo "cannot apply"; exit 2; }; shift; fi
for id in "$@"; do VERIF_REPO=$W python3 /verif/run.py "$id" 2>&1 | tail -4 | cut -c1-260; done
