#!/bin/bash
# development: run every harness check
for i in ${IDS:-01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17 18 19 20 21}; do /verif/replay/target/debug/vreplay check C$i --seed ${SEED:-1} --ms ${MS:-3000} --out /tmp/o_$i.json || echo "rc $?"; python3 - $i <<'P'
import json,sys; d=json.load(open(f'/tmp/o_{sys.argv[1]}.json'))
print(d['property'],d['cases'],d['distinct'],round(d['wall_s'],1),len(d['violations']))
for v in d['violations'][:2]: print('   ',repr(v['input'][:1500]),'\n   =>',v['why'][:600])
P
done
