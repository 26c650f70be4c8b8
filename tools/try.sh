#!/bin/bash
# try.sh PATCH ID...: run checks on a scratch copy of /repo with the patch
# applied, mounted over /repo in a mount namespace of its own.
# PATCH may also be a shell command starting with "cmd:" run in the copy.
p=$1; shift
d=$(mktemp -d /tmp/try.XXXXXX)
mkdir -p $d/repo $d/verif
cp -a /repo/. $d/repo/
tar -C /verif --exclude=./build --exclude=./.git --exclude=./evidence --exclude=./seeded -cf - . | tar -C $d/verif -xf -
mkdir -p $d/verif/build; [ -d /verif/build/symex ] && cp -a /verif/build/symex $d/verif/build/
( cd $d/repo && case "$p" in
  cmd:*) bash -c "${p#cmd:}" ;;
  "") ;;
  *) git apply "$p" ;;
esac ) || { echo "patch failed"; rm -rf "$d"; exit 3; }
for i in "$@"; do
  unshare -m sh -c "mount --bind $d/repo /repo && cd $d/verif && ./check.sh $i" >$d/out 2>&1
  rc=$?
  echo "== $i rc=$rc $(tail -5 $d/out | cut -c1-${TRY_W:-220} | tr '\n' '~')"
done
rm -rf "$d"
