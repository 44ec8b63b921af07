from mon.opcheck import ops_history, RULE
from mon.ops import BY_FAM
NEED = [o.name for o in BY_FAM['A08']]


def history(ctx, i):
    ops_history(ctx, i, ['A08'])
