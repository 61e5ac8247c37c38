#!/bin/bash
# Quick checks against another copy of the repository: tools/against.sh /tmp/copy [ids]   (env JOBS, W)
copy=$1; shift
ids=${*:-$(seq -f "C%02g" 1 25)}
printf '%s\n' $ids | xargs -P ${W:-2} -I{} bash -c 'out=$(LEGWORK_REPO='$copy' timeout 1200 /opt/venv/bin/python /verif/check.py {} --jobs '${JOBS:-3}' 2>&1); rc=$?; echo "{} rc=$rc $(echo "$out" | grep -v "^$" | tail -1 | cut -c1-200)"; [ $rc = 0 ] || echo "$out" | tail -25 | cut -c1-300'
