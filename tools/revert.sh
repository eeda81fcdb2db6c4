#!/bin/bash
# For each fix listed in KNOWN_FINDINGS: undo it alone in a scratch copy of /repo and see whether its property's check reports it.
one() {
  p=${0#property=}; c=$1; W=/tmp/vprevert/$c; mkdir -p /tmp/vprevert; rm -rf "$W"; cp -a /repo "$W"; cd "$W" || exit
  if git -c user.name=x -c user.email=x@x revert -n "$c" >/dev/null 2>&1; then
    o=$(VP_REPO=$W /verif/check "$p" --seed "${SEED:-1}" 2>&1); rc=$?
    if [ $rc = 1 ] && grep -q "VIOLATION property=$p" <<< "$o"; then echo "$c $p CAUGHT"; else echo "$c $p MISSED rc=$rc"; fi
  else echo "$c $p CONFLICT"; fi
  rm -rf "$W"
}
export -f one
sed -n 's/^fixed: \(property=[A-Z0-9]*\) \([0-9a-f]*\) .*/\1 \2/p' /verif/KNOWN_FINDINGS | xargs -P "${JOBS:-2}" -L 1 bash -c 'one "$1"'
