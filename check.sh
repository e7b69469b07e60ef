#!/bin/bash
# Decides one property on the current tree of /repo.
cd "$(dirname "$0")"
. ./env.sh
[ -x bin/gocv ] || ./setup.sh || exit 2
exec bin/gocv check "$1"
