from . import txn, graphp, links, defined
REG = {}
def reg(pid, run, assumptions=()):
    REG[pid] = {"run": run if isinstance(run, list) else [run], "assumptions": list(assumptions)}
from . import incr, views, partial
reg("P01", [txn.rule_revert, views.rule_revert, partial.rule_inverse_undone])
reg("P02", [txn.rule_commit, views.rule_commit])
reg("P03", [txn.rule_diff, incr.rule_replay, views.rule_list, partial.rule_fill, partial.rule_combine])
reg("P05", [graphp.rule_propose, graphp.rule_traverse])
reg("P06", [links.rule_links])
reg("P07", [links.rule_reject])
from . import effects
reg("P08", [effects.rule_effects, effects.rule_copy])
from . import prune
reg("P15", [prune.rule_prune])
reg("P16", [prune.rule_roles])
from . import pyrules
reg("P17", [pyrules.rule_one_model])
reg("P14", [pyrules.rule_lock, pyrules.rule_lock_states])

from . import serial
reg("P18", [serial.rule_symbols, serial.rule_states, serial.rule_format])
from . import domain
from . import pystate
reg("P10", [domain.rule_init, domain.rule_declared, pystate.rule_pass])
from . import moves
reg("P11", [moves.rule_moves])
reg("P04", [incr.rule_reduce, incr.rule_meaning, incr.rule_elements, views.rule_elements, partial.rule_maps, partial.rule_inverse])
from . import bounds
reg("P12", [bounds.rule_ranges])
from . import sizes
reg("P13", [sizes.rule_sizes, sizes.rule_slices, sizes.rule_fractions])
from . import escapes
reg("P25", [escapes.rule_crossing, escapes.rule_noexcept, escapes.rule_discarded])
reg("P09", [defined.rule_defined])
