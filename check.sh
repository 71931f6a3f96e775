#!/bin/sh
# check.sh ID [quick|thorough]: decides property ID on the code in /repo.
d=$(cd "$(dirname "$0")" && pwd)
[ -x "$d/bin/vf" ] || "$d/setup.sh" || exit 2
export VERIF_DIR="$d"
exec "$d/bin/vf" check -prop "$1" -tier "${2:-quick}"
