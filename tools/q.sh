#!/bin/bash
# q.sh "<ids>" "<seeds>" [check.py options]: brief results of quick checks
ids=$1; seeds=$2; shift 2
for s in $seeds; do for i in $ids; do
  VERIF_SEED=$s /opt/venv/bin/python "$(dirname "$0")"/../check.py $i "$@" > /tmp/q.$$ 2>&1; rc=$?
  echo "== $i seed $s rc $rc"; grep -v '^VIOLATION' /tmp/q.$$ | cut -c1-${W:-700} | head -${N:-8}
done; done; rm -f /tmp/q.$$
