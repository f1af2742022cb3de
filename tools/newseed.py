#!/usr/bin/env python3
"""newseed.py SPEC.py: a spec file defines ID, PROP, EDITS=[(file, old, new)], CRATES, DEMO, NEEDS, BREAKS; plants it through plant.sh"""
import sys, os, json, subprocess, shutil
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    d = f"/verif/seeded/{g['ID']}"; os.makedirs(d, exist_ok=True)
    if not os.path.isdir('/tmp/w'): subprocess.run(['cp', '-a', '/repo', '/tmp/w'], check=True)
    subprocess.run('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', shell=True, cwd='/tmp/w', check=True)
    ok = True
    for f, old, new in g['EDITS']:
        p = '/tmp/w/' + f; t = open(p).read()
        if t.count(old) != 1: print(g['ID'], f, 'matches', t.count(old), 'times'); ok = False; break
        open(p, 'w').write(t.replace(old, new))
    if not ok: continue
    open(d + '/demo.rs', 'w').write(g['DEMO'])
    open(d + '/demo.sh', 'w').write(open('/verif/tools/demo_template.sh').read().replace('@CRATES@', g.get('CRATES', '')))
    json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    r = subprocess.run(['/verif/tools/plant.sh', g['ID']])
    if r.returncode: print(g['ID'], 'NOT CONFIRMED')
