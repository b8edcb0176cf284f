#!/bin/bash
# run.sh bin args : summary
b=$1; shift
timeout 900 $b "$@" | python3 -c "
import sys,json
d=json.loads(sys.stdin.read()); print('$(basename $b)', '''$*''', {k:d.get(k) for k in ('result','cap','nondeterministic','states','transitions','terminals','histories','rounds','sccs','cyclic_sccs','own_steps','kind','msg','loop_len','wall') if k in d})"
