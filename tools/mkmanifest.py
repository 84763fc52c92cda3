#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and sim/props.list"""
import json,re,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
have=set(x.upper() for x in re.findall(r'P\((p\d+)\)',open('sim/props.list').read()))
have|={'P17','P18','P19'}
TG="deterministic simulation with fault injection: seeded search over generated C programs, map iteration orders, failing/short/killed I/O and build histories of the real generator on a simulated Go runtime, judged by the compiled program itself and by the fault-free run"
checks=[];na=[]
notes=json.load(open('tools/level_notes.json'))
for l in open('properties.jsonl'):
    p=json.loads(l);i=p['id']
    if i in have:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json",
          "technique":TG if i in ('P17','P18','P19') else "deterministic simulation with fault injection: seeded search over histories, schedules and failing allocations/callbacks of the real library code on a simulated heap, judged against a reference model",
          "level":"exploration","level_note":notes.get(i,notes['default'])})
    else: na.append({"property":i,"reason":notes.get('na_'+i,"check not built yet")})
json.dump({"version":1,"setup_cmd":"true","hooks":{"guard":"none","enable":"none: seams are put in place at link time (objcopy --redefine-syms), and build time (go build -overlay), /repo has no hooks","source_commits":[]},"checks":checks,"not_applicable":na,
 "notes":"Every check rebuilds the simulator from /repo's working tree (sim/build.sh, gen/build.sh). A replay file is replayed with: ./check.sh <ID> quick --replay <file>."},open('MANIFEST.json','w'),indent=1)
open('MANIFEST.json','a').write('\n')
