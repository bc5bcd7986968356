#!/usr/bin/env python3
"""Development aid: runs one property over many runs and summarises every distinct violation."""
import sys, subprocess, json, glob, os, re, collections, tempfile, shutil
prop, total = sys.argv[1], int(sys.argv[2])
builds = sys.argv[3].split(',') if len(sys.argv) > 3 else ['release', 'checked']
seed = sys.argv[4] if len(sys.argv) > 4 else '1'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = V + '/sim/target'
d = tempfile.mkdtemp()
for b in builds:
    exe = {'release': f'{T}/release/sim', 'checked': V + '/sim/target-checked/checked/sim', 'nightly': V + '/sim/target-nightly/release/sim'}[b]
    ps = [subprocess.Popen([exe, 'work', prop, seed, str(w), '8', str(total), '600', f'{d}/{b}{w}', 'keep']) for w in range(8)]
    rcs = [p.wait() for p in ps]
    c = collections.Counter(); ex = {}
    for kind in ('viol', 'lost'):
        for f in glob.glob(f'{d}/{b}*.{kind}'):
            for l in open(f):
                v = json.loads(l)
                k = (kind, v['class'], v['op'], re.sub(r'(0x)?[0-9a-f]*\d[0-9a-f]*', 'N', v['msg'])[:110])
                c[k] += 1
                if k not in ex or v['run'] < ex[k][0]: ex[k] = (v['run'], v['msg'])
    runs = sum(json.loads(l)['runs'] for f in glob.glob(f'{d}/{b}*.stats') for l in open(f))
    print(prop, b, 'exit', rcs, 'runs', runs)
    for k, n in c.most_common(40): print('  ', n, k[:3], 'run', ex[k][0], ex[k][1][:160])
shutil.rmtree(d)
