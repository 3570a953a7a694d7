#!/bin/bash
# detect.sh [-p PROP] ID...: run the quick check of each planted bug's property on a patched copy of the repository.
P=""; [ "$1" = -p ] && { P=$2; shift 2; }
for id in "$@"; do
  d=/verif/seeded/$id; r=/tmp/rp-$$
  rm -rf /tmp/rp-$$; cp -a /repo $r; git -C $r apply $d/patch.diff || continue
  p=${P:-$(/usr/bin/python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  cd /verif; MANDALA_REPO=$r VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python check.py --property $p --tier quick > /tmp/det-$id.log 2>&1; rc=$?
  echo "== $id: $p exit $rc  $(grep -E '^violated' /tmp/det-$id.log | head -1 | cut -c1-160)"; tail -1 /tmp/det-$id.log | cut -c1-200
  rm -rf /tmp/rp-$$
done
