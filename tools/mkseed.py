#!/usr/bin/env python3
"""mkseed.py NAME PROPERTY  -- turn the current uncommitted diff of a scratch copy into a seed.
stdin: json {needs, what_it_breaks, demo}; env SCRATCH = scratch copy of /repo with the change applied."""
import json, os, shutil, subprocess, sys
name, prop = sys.argv[1:3]
d = json.load(sys.stdin)
sc = os.environ.get('SCRATCH', '/tmp/sc/repo')
out = f'/verif/seeded/{name}'
os.makedirs(out, exist_ok=True)
diff = subprocess.run(['git', '-C', sc, 'diff'], stdout=subprocess.PIPE, text=True).stdout
open(out + '/patch.diff', 'w').write(diff)
shutil.copy(f'/verif/tools/seedtpl/{d.get("sh", "demo.sh")}', out + '/demo.sh')
os.chmod(out + '/demo.sh', 0o755)
open(out + '/demo.rs', 'w').write(d['demo'])
json.dump({'property': prop, 'needs': d['needs'], 'what_it_breaks': d['what_it_breaks']}, open(out + '/meta.json', 'w'), indent=1)
