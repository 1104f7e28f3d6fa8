#!/bin/bash
# all.sh SECS CHECK...: t.sh of several checks, in parallel
s=$1; shift
for c in "$@"; do (/verif/tools/t.sh $c $s > /tmp/all.$c 2>&1) & done; wait
for c in "$@"; do cut -c1-330 /tmp/all.$c; done
