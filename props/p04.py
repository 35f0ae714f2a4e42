"""P04 depthwise and group convolution: every output element, all strides/paddings/dilations/shapes."""
import sys
import build, runner, kleaf, leafdeps, p03
from kern import *
ID = 'P04'
LEVEL = 'proof'
DW, GRP = build.HERE + '/drv/dwconv.cc', build.HERE + '/drv/grpconv.cc'
def tasks(tier):
    return p03.plan(tier, (0, 3, 5), 'depthwise_conv2d_hwcn', DW, 'dw') + p03.plan(tier, (0, 3, 5), 'group_conv2d_hwcn', GRP, 'grp') + [(p03.lemma_task, (), 60)] + leafdeps.tasks(ID, tier)
HARNESS = [{'src': 'dwconv.cc', 'config': 'up'}, {'src': 'dwconv.cc', 'config': 'fullaccu_rel'}]
SECONDS = p03.SECONDS
ASSUMPTIONS = p03.ASSUMPTIONS + ['group convolution: input channels a multiple of the weights\' channels, output channels a multiple of the group count']
if __name__ == '__main__':
    a = sys.argv[1:]
    show_report(p03.run(a[0], int(a[1]), int(a[2]), a[3], *(('depthwise_conv2d_hwcn', DW, 'dw') if a[4] == 'dw' else ('group_conv2d_hwcn', GRP, 'grp'))), False)
