"""The bit-precise contracts of the scalar primitives a kernel property relies on are re-proved with it."""
import re, scalar_contracts, p01
def tasks(pid, tier, pat=None, cfgs=('up', 'convergent')):
    t = []
    for cfg in cfgs:
        for n in sorted(scalar_contracts.contracts(cfg), key=lambda n: -('mulhigh' in n or 'normcast' in n)):
            if pat is None or re.search(pat, n):
                t.append((p01.leaf_task, (cfg, n), 200))
    return t
