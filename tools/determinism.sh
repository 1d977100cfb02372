#!/bin/bash
# determinism.sh [RUNS] [ID...]: the digest of every run must not depend on the number of
# workers, on PYTHONHASHSEED, or on which runs were simulated before it.
cd "$(dirname "$0")/.."
n=${1:-64}; shift
for p in ${@:-$(ls evidence | sed 's/.json//' | sort)}; do
  a=$(PYTHONHASHSEED=0 /opt/venv/bin/python check.py --property $p --no-evidence --runs $n --workers 1 --digests | grep ^DIGEST | md5sum)
  b=$(PYTHONHASHSEED=77 /opt/venv/bin/python check.py --property $p --no-evidence --runs $n --workers 7 --digests | grep ^DIGEST | md5sum)
  [ "$a" = "$b" ] && echo "$p same" || echo "$p DIFFERENT"
done
