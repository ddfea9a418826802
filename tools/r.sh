#!/bin/bash
# developer helper: run entry $2 of group $1
g=$1; e=$2; shift 2
/verif/symx/target/release/symx /verif/.work/ir/$g.ll --entry $e --out /tmp/o_$e.json --jobs 8 --time 120 "$@" 2>&1 | tail -5
python3 - /tmp/o_$e.json <<'P'
import json,sys
d=json.load(open(sys.argv[1]))
print({k:d[k] for k in ('entry','wall_s','parse_s','paths','forks','queries','cached_queries','steps','unknown','max_query_s','solver_s','infeasible','symbolic_reads') if k in d})
print('reach',d['reach']); print('asserts',d['asserts']); print('errors',d['errors'])
for v in d['violations'][:4]: print('VIOL',v['kind'],v['msg'][:300],v['inputs'],[s for s in v['stack'][:6]])
P
