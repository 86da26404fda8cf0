"""Execute plans of a property on workers with different hash seeds and diff their traces."""
import random, sys, json
sys.path.insert(0, '/verif')
import importlib
from sim import check
prop, lo, hi = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
mod = importlib.import_module('sim.props.' + prop.lower())
farm = check.Farm(8)
plans = []
for i in range(lo, hi):
    s = 1_000_003 + i
    p = mod.gen(random.Random(f"{prop}/{s}"), 'quick', i)
    p['prop'], p['seed'] = prop, s
    p.setdefault('wseed', s & 0xFFFFFF)
    plans.append(json.loads(json.dumps(p)))
A = farm.map(plans)
farm.workers = farm.workers[3:] + farm.workers[:3]
B = farm.map(plans)
for p, a, b in zip(plans, A, B):
    if a.get('hash') != b.get('hash'):
        print('DIFF', p['seed'], a.get('error'), b.get('error'))
        ra = farm.workers[0].call(p, trace=True); rb = farm.workers[1].call(p, trace=True)
        for wi, (x, y) in enumerate(zip(ra['trace'], rb['trace'])):
            for k, (e, f) in enumerate(zip(x, y)):
                if e != f:
                    print('  world', wi, 'event', k, e, f); break
            else:
                if len(x) != len(y): print('  len', len(x), len(y))
                continue
            break
        else:
            print('  traces equal on retry')
print(sum(a.get('hash') == b.get('hash') for a, b in zip(A, B)), 'of', len(plans), 'identical')
farm.stop()
