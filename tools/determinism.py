#!/usr/bin/env python3
"""Shows that a seed fixes the execution: the digests of the same runs are the same set for 1, 3 and 8
worker processes, and run by run when each run has a fresh process and another environment."""
import glob, os, struct, subprocess, sys, tempfile
EX = {'release': 'target/release/sim', 'checked': 'target-checked/checked/sim', 'nightly': 'target-nightly/release/sim'}
props = sys.argv[1:] or [f'C{i:02}' for i in [*range(1, 19), 21, 22, 23, 24]]
bad = 0
for b, e in EX.items():
    e = f'/verif/sim/{e}'
    for p in props:
        if b == 'nightly' and p not in ('C05', 'C08', 'C09', 'C10', 'C11', 'C12', 'C15', 'C18', 'C21', 'C22', 'C23'):
            continue
        for seed in ('1', '99'):
            n = 400 if p in ('C13', 'C14') else 2000
            sets = []
            with tempfile.TemporaryDirectory() as d:
                for w in (1, 3, 8):
                    ps = [subprocess.Popen([e, 'work', p, seed, str(i), str(w), str(n), '300', f'{d}/{w}-{i}']) for i in range(w)]
                    assert all(q.wait() == 0 for q in ps)
                    s = []
                    for f in glob.glob(f'{d}/{w}-*.runs'):
                        x = open(f, 'rb').read()
                        s += struct.unpack(f'<{len(x)//8}Q', x)
                    sets.append(set(s))
            a = subprocess.run([e, 'digest', p, seed, '0', '150'], capture_output=True, text=True).stdout
            c = subprocess.run([e, 'digest', p, seed, '0', '150'], capture_output=True, text=True, cwd='/', env={'Z': 'q' * 5000}).stdout
            single = {int(l.split()[2], 16) for l in a.splitlines()}
            ok = sets[0] == sets[1] == sets[2] and a == c
            print(p, b, 'seed', seed, len(sets[0]), 'digests', 'same' if ok else 'DIFFERENT', f'{len(single & sets[0])} of {len(single)} single-process digests met')
            bad += not ok
sys.exit(1 if bad else 0)
