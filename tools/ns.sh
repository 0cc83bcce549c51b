#!/bin/bash
# ns.sh NAME COMMAND...: run a command with fresh copies of /repo and /verif (under /tmp/ns/NAME) mounted over them
base=/tmp/ns/$1; shift
rm -rf "${base:?}/verif" "${base:?}/repo"
mkdir -p "$base"
cp -a /repo "$base/repo"; cp -a /verif "$base/verif"
exec unshare -m bash -c 'mount --bind '"$base"'/repo /repo && mount --bind '"$base"'/verif /verif && cd /verif && exec "$@"' ns "$@"
