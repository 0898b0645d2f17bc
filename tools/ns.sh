#!/bin/bash
# run a command with directory $1 bind-mounted over /repo (private mount namespace; the real /repo is untouched)
D=$1; shift
exec unshare -Urm bash -c 'mount --bind "$0" /repo && cd /repo && exec "$@"' "$D" "$@"
