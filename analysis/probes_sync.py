"""What several threads may do at once to a walk they share: reading. The clients of the other modules, again,
with every store to a node, a borrow state or a reference count that existed before the call forbidden."""
import copy
import probes_bfs
import probes_iter
import probes_read
import probes_rel

NAMES = ("node_parent node_degree node_count node_no_child node_front node_back node_data node_child_parent it_node it_once "
         "node_eq node_ne node_pcmp node_cmp node_hash node_fmt q_step split_ref bf_node bf_node_ch").split()
PROBES = []
for m in (probes_read, probes_iter, probes_rel, probes_bfs):
    for p in m.PROBES:
        if p.name in NAMES:
            q = copy.copy(p)
            q.props, q.main = ["P24"], "P24"
            q.opts = dict(p.opts, frozen=True)
            q.only = {"shared-write", "analysis", "anchor"}
            q.panics = lambda c: True
            PROBES.append(q)
assert sorted(p.name for p in PROBES) == sorted(NAMES)
