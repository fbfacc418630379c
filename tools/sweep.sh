#!/bin/bash
# run.sh PROP N [SEED]
export ASAN_OPTIONS=exitcode=99:handle_abort=1:allocator_may_return_null=1:detect_leaks=0:abort_on_error=0:malloc_context_size=1 UBSAN_OPTIONS=exitcode=99:print_stacktrace=1
EXE=${EXE:-$(python3 $(dirname $0)/../build.py)}
rm -rf /tmp/o/$1; mkdir -p /tmp/o/$1
for w in 0 1 2 3 4 5 6 7; do $EXE batch $1 ${3:-1} $w $2 8 100000 /tmp/o/$1 > /tmp/o/$1.w$w 2>&1 & done; wait
grep -l "^S " /tmp/o/$1.w* | wc -l | grep -qx 8 || echo "$1: a worker died"
cat /tmp/o/$1.w* | grep -P '^[VH]\t|^[VH] ' | cut -f2- | awk -F'\t' '{k=$3; if(!(k in c)) ex[k]=$0; c[k]++} END{for(k in c) print c[k], ex[k]}' | cut -c1-300
cat /tmp/o/$1.w* | grep '^S ' | python3 -c "
import sys,json
t={}
for l in sys.stdin:
    d=json.loads(l[2:])
    for k,v in d.items():
        if isinstance(v,(int,float)): t[k]=t.get(k,0)+v
print('$1',{k:t[k] for k in ('runs','nontrivial','faulty','violations','distinct') if k in t})"
