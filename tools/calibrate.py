#!/usr/bin/env python3
"""Measures runs per second of every property and rewrites budget.json (development aid)."""
import json, subprocess, tempfile, time, shutil
rate, deep_rate = {}, {}
for i in [*range(1, 19), 21, 22, 23, 24]:
    p = f'C{i:02}'
    d = tempfile.mkdtemp()
    for deep, out in ((0, rate), (1, deep_rate)):
        n = 12000 if not deep else 2400
        t = time.time()
        ps = [subprocess.Popen(['/verif/sim/target/release/sim', 'work', p + ('+' if deep else ''), '77', str(w), '8', str(n), '100', f'{d}/{w}']) for w in range(8)]
        [q.wait() for q in ps]
        out[p] = max(50, int(n / (time.time() - t) // 50 * 50))
    print(p, rate[p], deep_rate[p])
    shutil.rmtree(d)
json.dump({'quick_seconds': 36, 'thorough_seconds': 600, 'rate': rate, 'deep_rate': deep_rate}, open('/verif/tools/budget.json', 'w'), indent=1)
