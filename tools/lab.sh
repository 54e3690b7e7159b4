#!/bin/bash
# lab.sh PATCH|- COMMAND...: run a command where /repo (with the patch applied), /opt/venv, /opt/build and
# /verif/evidence are private copies-on-write.  For experiments only; no check uses it.
P=$1; shift
[ "$P" = - ] || P=$(realpath "$P")
D=$(mktemp -d /tmp/lab.XXXXXX)
export LAB=$D LABP=$P
mkdir -p /verif/evidence
unshare -Urm bash -c '
  mount -t tmpfs tmpfs $LAB
  for d in /repo /opt/venv /opt/build /verif/evidence; do
    n=$(echo $d | tr / _); mkdir -p $LAB/$n.u $LAB/$n.w
    mount -t overlay overlay -o userxattr,lowerdir=$d,upperdir=$LAB/$n.u,workdir=$LAB/$n.w $d || exit 99
  done
  cd /repo
  if [ "$LABP" != - ]; then git -c safe.directory=/repo apply "$LABP" || exit 98; fi
  "$@"
' lab "$@"
rc=$?
rmdir "$D" 2>/dev/null
exit $rc
