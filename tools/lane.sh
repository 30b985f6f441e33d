#!/bin/bash
# lane.sh NAME COMMAND...: run a command with /repo and /verif replaced by private copies, so that
# planted bugs can be tried while work on the real ones continues. The copies are removed at the end.
n=/tmp/lane-$1; shift
mkdir -p "$n" && cp -a /repo /verif "$n"/ || exit 2
unshare -Urm bash -c 'mount --bind "$1/repo" /repo && mount --bind "$1/verif" /verif && cd /verif && shift && exec "$@"' lane "$n" "$@"
r=$?
rm -rf "$n"
exit $r
