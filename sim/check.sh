#!/bin/bash
# check.sh PROPERTY [TIER] - build from /repo's working tree, then decide one property.
here=$(dirname "$(realpath "${BASH_SOURCE[0]}")")
prop=${1:?property}
tier=${2:-${VERIF_TIER:-quick}}
(
  flock 9
  bash "$here/build.sh"
) 9>"$here/.lock" || { echo "error: the build failed" >&2; exit 3; }
cd "$here/.." || exit 3
exec "$here/target/release/gssim" check "$prop" --tier "$tier" --seed "${VERIF_SEED:-1}" --root "$(realpath "$here/..")"
