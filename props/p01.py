import build, leaf, scalar_contracts, runner
ID = 'P01'
LEVEL = 'proof'
SRC = build.HERE + '/drv/scalar.cc'
def leaf_task(cfg, n):
    C = scalar_contracts.contracts(cfg)
    M, _ = build.kernel_module(SRC, cfg, sorted(C))
    return runner.from_leaf(leaf.check(M, n, cfg, C[n]))
def tasks(tier):
    t = []
    for cfg in ('up', 'convergent'):
        for n in sorted(scalar_contracts.contracts(cfg), key=lambda n: -('mulhigh' in n or 'normcast' in n)):
            t.append((leaf_task, (cfg, n), 200))
    return t
HARNESS = [{'src': 'scalar.cc', 'config': 'up', 'lib': False}, {'src': 'scalar.cc', 'config': 'convergent', 'lib': False}]
SECONDS = {'quick': 2, 'thorough': 30, 'search': 30}
ASSUMPTIONS = ['a shift amount of INT_MIN is excluded (its negation does not exist)',
               'multiply-accumulate is specified only where the exact sum fits the accumulator (the reference accumulators do not saturate)']
