#!/bin/bash
# check.sh ID...: decide properties on /repo's current source. Exit 0: held. Exit 1: VIOLATION line.
cd "$(dirname "$0")" || exit 2
. ./env.sh
[ -x bin/vsa ] || ./setup.sh >/dev/null || exit 2
exec bin/vsa check "$@"
