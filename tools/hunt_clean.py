"""Runs the wider replays of a property on the unchanged tree: they must find nothing (run by hand)."""
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run_check
from vlib import harness

spec = run_check.load(sys.argv[1])
done = set()
for c in spec['cases']('quick'):
    if not c.hunts:
        continue
    for params, style, n in c.hunts:
        key = (c.fn.__name__, str(dict(c.params, **params)), style)
        if key in done:
            continue
        done.add(key)
        t = time.time()
        bad = 0
        for s in range(n):
            h = harness.replay_once(c, {}, 1 + s, 1, (), dict(c.params, **params), style)
            if h is not None and h.failures:
                bad += 1
                print('FALSE', c.name, style, s, h.failures[:3])
        print(c.name, style, 'bad', bad, 'of', n, '%.1f s' % (time.time() - t), flush=True)
