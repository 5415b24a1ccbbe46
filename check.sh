#!/bin/bash
# check.sh ID [quick|thorough]
VERIF="$(cd "$(dirname "$0")" && pwd)"
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
export CV_CACHE="${CV_CACHE:-$VERIF/.cache}"
REPO="${CV_REPO:-/repo}"
mkdir -p "$CV_CACHE"
# the dump is keyed by the content of the sources it was made from
H="$( (cd "$REPO" && find crates Cargo.toml Cargo.lock -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha1sum; sha1sum "$VERIF"/driver/src/*.rs "$VERIF"/dump.sh) | sha1sum | cut -c1-16)"
D="$CV_CACHE/dump-$H"
S=$(date +%s)
if [ ! -e "$D/done" ]; then
  T="$(mktemp -d "$CV_CACHE/tmp.XXXXXX")"
  if "$VERIF/dump.sh" "$T" "$REPO" >"$T/out.log" 2>&1; then
    touch "$T/done"
    (exec 8>"$CV_CACHE/dl"; flock 8; find "$CV_CACHE" -maxdepth 1 -name 'dump-*' -mmin +30 -exec rm -rf {} +; rm -rf "$D"; mv "$T" "$D")
  else
    tail -30 "$T/out.log"; rm -rf "$T"; D=
  fi
fi
export CV_DUMP_S=$(( $(date +%s) - S ))
ulimit -v 16000000
timeout 780 python3 "$VERIF/engine/check.py" "$ID" "$TIER" ${D:+"$D"}
rc=$?
if [ $rc != 0 ] && [ $rc != 1 ]; then
  # fail closed: the analysis could not be completed
  mkdir -p "$VERIF/evidence"
  echo "analysis of $ID did not complete (status $rc)"
  [ -e "$VERIF/evidence/$ID.json" ] || echo "{\"property\":\"$ID\",\"tier\":\"$TIER\",\"seed\":1,\"level\":\"other\",\"coverage\":{\"explanation\":\"analysis did not complete\"},\"wall_s\":0}" > "$VERIF/evidence/$ID.json"
  echo "VIOLATION property=$ID replay=$VERIF/evidence/$ID.json"
  exit 1
fi
exit $rc
