#!/bin/bash
# private.sh COMMAND...: run a command in a mount namespace in which /repo and /verif are private copies, so that
# planted bugs can be tried while something else uses the real ones. What the command leaves in OUT (default: nothing) stays.
d=$(mktemp -d /tmp/private.XXXXXX) || exit 2
cp -a /repo "$d/repo" && cp -a /verif "$d/verif" || exit 2
unshare -Urm bash -c 'mount --bind "$0/repo" /repo && mount --bind "$0/verif" /verif && cd /verif && "$@"' "$d" "$@"
rc=$?
rm -rf "${d:?}"
exit $rc
