from cases_rules import bug, same

E = "evolution.py"
LOOPV = '''    return list(trajectory.values())'''
RULE = '''        if memoize:
            new_activity = _get_memoized(activity_rule, ctx, memoization_table, memoization_key)
        else:
            new_activity = activity_rule(ctx)
            new_activity = check_np(new_activity)
'''
STORE = '''        if ignore_node_changes or node_label not in ctx.removed_nodes:
            curr_activities[node_label] = new_activity

            if perturbation is not None:
                pctx = PerturbationContext(node_label, curr_activities[node_label], t, node_in)
                curr_activities[node_label] = check_np(perturbation(pctx))
'''
CTX = '''        ctx = NodeContext(node_label, t, prev_activities, neighbour_labels, neighbourhood_activities,
                          incoming_connections, current_activity, past, node_in)
'''
NODES = "    for node_label in network.nodes:\n        incoming_connections"
MEMO = '''    key = memoization_key.to_key(ctx)
    if key in memoization_table:
        return memoization_table[key]
    else:
        result = activity_rule(ctx)
        result = check_np(result)
        memoization_table[key] = result
        return result
'''
REBUILD = '''            if (added_nodes or removed_nodes) and topology_rule is None:
                # re-build the neighbourhood map, since the network has changed
                neighbourhood_map = _get_neighbourhood_map(curr_network)
'''
SYNC = '''            curr_network = evolve_topology(topology_rule, t, prev_activities, prev_network,
                                           trajectory, copy_network, persist_network)
            # added and removed nodes are ignore in this case
            evolve_activities(activity_rule, t, inp, curr_activities, prev_activities, trajectory, prev_network, past,'''
TOPOF = '''            evolve_activities(activity_rule, t, inp, curr_activities, prev_activities, trajectory, curr_network, past,
                              perturbation, persist_activities, memoize, memo_table, neighbourhood_map, memoization_key,
                              ignore_node_changes=True)

        elif'''
PAST = '''        if past is not None:
            # the oldest of the past activities is dropped, and the most recent is added
            past = past[1:] + [prev_activities]
'''
ADJ = '''        network = network.copy()

        # adjust connectivity map according to node deletions and insertions
        for node_label in dict.fromkeys(removed_nodes):
            network.remove_node(node_label)
'''
LEN = "    if len(initial_conditions) != len(network) and activity_rule:"

CASES = [
    bug("ev-inplace", "C01", (E, "        curr_activities = {}\n        trajectory[t]", "        curr_activities = prev_activities\n        trajectory[t]")),
    bug("ev-gs", "C01", (E, "        neighbourhood_activities = [prev_activities[neighbour_label] for neighbour_label in neighbour_labels]",
                         "        neighbourhood_activities = [curr_activities[x] if x in curr_activities else prev_activities[x] for x in neighbour_labels]")),
    bug("ev-sync-order", "C02", (E, SYNC, SYNC.replace("trajectory, prev_network, past", "trajectory, curr_network, past"))),
    bug("ev-topofirst-prev", "C02", (E, TOPOF, TOPOF.replace("trajectory, curr_network, past", "trajectory, prev_network, past"))),
    bug("ev-actfirst-S", "C02", (E, "curr_network = evolve_topology(topology_rule, t, curr_activities, prev_network,",
                                 "curr_network = evolve_topology(topology_rule, t, prev_activities, prev_network,")),
    bug("ev-order-unknown", "C02", (E, "        elif update_order is UpdateOrder.SYNCHRONOUS:\n", "        elif update_order is not None:\n")),
    bug("ev-T-off", "C03", (E, "        if t >= self._num_steps:", "        if t > self._num_steps:")),
    bug("ev-topo-t", "C03", (E, "TopologyContext(network, activities, t)", "TopologyContext(network, activities, t - 1)")),
    bug("ev-pert-t", "C03", (E, "curr_activities[node_label], t, node_in)", "curr_activities[node_label], t + 1, node_in)")),
    bug("ev-list-first", "C05", (E, "        return self._input_list[t-1]", "        return self._input_list[t % len(self._input_list)]")),
    bug("ev-list-end", "C03", (E, "        if (t-1) >= len(self._input_list):", "        if t >= len(self._input_list):")),
    bug("ev-falsy-input", "C03 C05", (E, "        if inp is None:\n            break", "        if not inp:\n            break")),
    bug("ev-map-stale", "C04", (E, REBUILD, "")),
    bug("ev-map-topo", "C04", (E, "    if topology_rule is None:\n        neighbourhood_map = _get", "    if topology_rule is None or not copy_network:\n        neighbourhood_map = _get")),
    bug("ev-map-prev", "C04", (E, "neighbourhood_map = _get_neighbourhood_map(curr_network)", "neighbourhood_map = _get_neighbourhood_map(prev_network)")),
    bug("ev-rotation-ignored", "C04", (E, "    elif network.rotation_system is not None:\n        return network.rotation_system[node_label]\n", "")),
    bug("ev-map-removed-only", "C04", (E, "            if (added_nodes or removed_nodes) and topology_rule is None:", "            if removed_nodes and topology_rule is None:")),
    bug("ev-in-string", "C05", (E, "    return isinstance(obj, (collections.abc.Sequence, np.ndarray))", "    return isinstance(obj, collections.abc.Sequence)")),
    bug("ev-in-truthy", "C05", (E, "inp[node_label] if _is_indexable(inp) else inp\n", "(inp[node_label] or None) if _is_indexable(inp) else inp\n")),
    bug("ev-pert-prev", "C05", (E, "PerturbationContext(node_label, curr_activities[node_label],", "PerturbationContext(node_label, current_activity,")),
    bug("ev-pert-or", "C05", (E, "check_np(perturbation(pctx))", "check_np(perturbation(pctx) or new_activity)")),
    bug("ev-pert-removed", "C05", (E, "            if perturbation is not None:\n                pctx", "        if perturbation is not None:\n                pctx")),
    bug("ev-pert-removed2", "C06", (E, STORE, '''        if ignore_node_changes or node_label not in ctx.removed_nodes:
            curr_activities[node_label] = new_activity
        if perturbation is not None:
            pctx = PerturbationContext(node_label, new_activity, t, node_in)
            curr_activities[node_label] = check_np(perturbation(pctx))
''')),
    bug("ev-removed-act", "C06", (E, '''        for node_label in removed_nodes:
            curr_activities.pop(node_label, None)
''', "")),
    bug("ev-added-links", "C06", (E, "network.add_edge(node_label, target, **connection_state)", "network.add_edge(target, node_label, **connection_state)")),
    bug("ev-added-noattr", "C06", (E, "network.add_edge(node_label, target, **connection_state)", "network.add_edge(node_label, target)")),
    bug("ev-sync-requests", "C06", (E, "        if ctx.removed_nodes and not ignore_node_changes:", "        if ctx.removed_nodes:")),
    bug("ev-addorder", "C06", (E, ADJ, ADJ.replace("dict.fromkeys(removed_nodes)", "removed_nodes"))),
    bug("ev-past-cur", "C07", (E, "past = past[1:] + [prev_activities]", "past = past[1:] + [curr_activities]")),
    bug("ev-past-rev", "C07", (E, "past = past[1:] + [prev_activities]", "past = [prev_activities] + past[:-1]")),
    bug("ev-past-grow", "C07", (E, "past = past[1:] + [prev_activities]", "past = past + [prev_activities]")),
    bug("ev-past-list", "C07", (E, "past_condition = {i: v for i, v in enumerate(past_condition)}", "past_condition = {i: v for i, v in enumerate(past_condition, 1)}")),
    bug("ev-past-index", "C07", (E, "past_activity_index=-1)", "past_activity_index=0)")),
    bug("ev-memo-pert", "C08", (E, MEMO, MEMO.replace("memoization_table[key] = result\n", "memoization_table[ctx.node_label] = result\n"))),
    bug("ev-memo-set", "C08", (E, "return frozenset(collections.Counter(ctx.neighbourhood_activities).items())", "return frozenset(ctx.neighbourhood_activities)")),
    bug("ev-memo-sum", "C08", (E, "return tuple(ctx.neighbourhood_activities)", "return tuple(sorted(ctx.neighbourhood_activities))")),
    bug("ev-memo-str", "C08", (E, "return tuple(ctx.neighbourhood_activities)", "return ''.join(str(x) for x in ctx.neighbourhood_activities)")),
    bug("ev-memo-user", "C08", (E, "    if memoize and memoization_key is None:", "    if memoize:")),
    bug("ev-memo-rot", "C08", (E, "if network.rotation_system is None else", "if network.rotation_system is not None else")),
    bug("ev-memo-global", "C08", (E, "    memo_table = {}\n", "    memo_table = _MEMO\n"), (E, "class UpdateOrder(Enum):", "_MEMO = {}\n\n\nclass UpdateOrder(Enum):")),
    bug("ev-memo-afterpert", "C08", (E, "                curr_activities[node_label] = check_np(perturbation(pctx))\n",
                                     "                curr_activities[node_label] = check_np(perturbation(pctx))\n                if memoize:\n                    memoization_table[memoization_key.to_key(ctx)] = curr_activities[node_label]\n")),
    bug("ev-ic-mutated", "C09", (E, "        initial_conditions = {i: check_np(v) for i, v in initial_conditions.items()}",
                                 "        for i, v in initial_conditions.items():\n            initial_conditions[i] = check_np(v)")),
    bug("ev-ic-alias", "C09", (E, "            network.remove_node(node_label)\n", "            network.remove_node(node_label)\n            prev_network.remove_node(node_label)\n")),
    bug("ev-nocopy", "C09", (E, "        if copy_network:\n            network = network.copy()\n", "        if copy_network and t == 1:\n            network = network.copy()\n")),
    bug("ev-req-nocopy", "C09", (E, ADJ, ADJ.replace("        network = network.copy()\n", "        if copy_network:\n            network = network.copy()\n")
                                 .replace("copy_network", "persist_network"))),
    bug("ev-past-inplace", "C09", (E, "past = past[1:] + [prev_activities]", "past.pop(0)\n            past.append(prev_activities)"),
        (E, "    if past_conditions is not None and len(past_conditions) > 0:\n        past_activities = []", "    if past_conditions is not None and len(past_conditions) > 0:\n        if all(isinstance(x, dict) for x in past_conditions):\n            return past_conditions\n        past_activities = []")),
    bug("ev-persist-skip", "C10", (E, "    if persist_network:\n        trajectory[t].network = network\n\n    return network", "    if persist_network:\n        trajectory[t].network = network\n    elif topology_rule is None:\n        return prev_network\n\n    return network")),
    bug("ev-persist-read", "C10", (E, "        prev_activities = curr_activities\n", "        prev_activities = trajectory[t].activities or curr_activities\n        if not persist_activities:\n            prev_activities = trajectory[t - 1].activities or curr_activities\n")),
    bug("ev-np-pert", "C11", (E, "curr_activities[node_label] = check_np(perturbation(pctx))", "curr_activities[node_label] = perturbation(pctx)")),
    bug("ev-np-memo", "C11", (E, MEMO, MEMO.replace("        result = check_np(result)\n", ""))),
    bug("ev-np-add", "C11", (E, "curr_activities[node_label] = check_np(state)", "curr_activities[node_label] = state")),
    bug("ev-np-dict", "C11", (E, "    elif isinstance(initial_conditions, dict):\n        initial_conditions = {i: check_np(v) for i, v in initial_conditions.items()}\n", "")),

    same("ev-traj-list", (E, "    trajectory = {0: State(activities=initial_conditions, network=network, compression=compression)}",
                          "    trajectory = [State(activities=initial_conditions, network=network, compression=compression)]"),
         (E, "        trajectory[t] = State(compression=compression)", "        trajectory.append(State(compression=compression))"),
         (E, LOOPV, "    return trajectory")),
    same("ev-ctx-kw", (E, CTX, CTX.replace("past, node_in)", "past_activities=past, input=node_in)"))),
    same("ev-pert-local", (E, STORE, '''        if not ignore_node_changes and node_label in ctx.removed_nodes:
            continue
        if perturbation is None:
            curr_activities[node_label] = new_activity
        else:
            curr_activities[node_label] = check_np(perturbation(PerturbationContext(node_label, new_activity, t, node_in)))
''')),
    same("ev-nodes-list", (E, NODES, "    for node_label in list(network.nodes):\n        incoming_connections")),
    same("ev-nb-map", (E, "        neighbourhood_activities = [prev_activities[neighbour_label] for neighbour_label in neighbour_labels]",
                       "        neighbourhood_activities = list(map(prev_activities.__getitem__, neighbour_labels))")),
    same("ev-nb-loop", (E, "        neighbourhood_activities = [prev_activities[neighbour_label] for neighbour_label in neighbour_labels]",
                        "        neighbourhood_activities = []\n        for nl in neighbour_labels:\n            neighbourhood_activities.append(prev_activities[nl])")),
    same("ev-memo-get", (E, MEMO, '''    key = memoization_key.to_key(ctx)
    if key not in memoization_table:
        memoization_table[key] = check_np(activity_rule(ctx))
    return memoization_table[key]
''')),
    same("ev-memo-try", (E, MEMO, '''    key = memoization_key.to_key(ctx)
    try:
        return memoization_table[key]
    except KeyError:
        pass
    result = check_np(activity_rule(ctx))
    memoization_table[key] = result
    return result
''')),
    same("ev-memo-inline", (E, RULE, '''        if not memoize:
            new_activity = check_np(activity_rule(ctx))
        else:
            k = memoization_key.to_key(ctx)
            if k in memoization_table:
                new_activity = memoization_table[k]
            else:
                new_activity = memoization_table[k] = check_np(activity_rule(ctx))
''')),
    same("ev-past-copy", (E, PAST, '''        if past is not None:
            window = list(past)
            window.append(prev_activities)
            past = window[1:]
''')),
    same("ev-past-loop", (E, PAST, '''        if past is not None:
            past = [past[i + 1] if i + 1 < len(past) else prev_activities for i in range(len(past))]
''')),
    same("ev-for-count", (E, "    t = 1\n    while True:\n        inp =", "    import itertools\n    for t in itertools.count(1):\n        inp ="), (E, "        prev_network = curr_network\n\n        t += 1\n", "        prev_network = curr_network\n")),
    same("ev-while-cond", (E, '''    t = 1
    while True:
        inp = input_fn(t, prev_activities, prev_network)
        if inp is None:
            break
''', '''    t = 1
    inp = input_fn(t, prev_activities, prev_network)
    while inp is not None:
'''), (E, "        t += 1\n", "        t += 1\n        inp = input_fn(t, prev_activities, prev_network)\n")),
    same("ev-helper-node", (E, RULE, "        new_activity = _compute(activity_rule, ctx, memoize, memoization_table, memoization_key)\n"),
         (E, "def _get_memoized(", '''def _compute(rule, ctx, memoize, table, key):
    if memoize:
        return _get_memoized(rule, ctx, table, key)
    return check_np(rule(ctx))


def _get_memoized(''')),
    same("ev-order-dict", (E, "        elif update_order is UpdateOrder.TOPOLOGY_FIRST:", "        elif update_order == UpdateOrder.TOPOLOGY_FIRST:")),
    same("ev-adj-set", (E, "        for node_label in dict.fromkeys(removed_nodes):", "        for node_label in set(removed_nodes):")),
    same("ev-adj-seen", (E, "        for node_label in dict.fromkeys(removed_nodes):\n            network.remove_node(node_label)\n", '''        seen = set()
        for node_label in removed_nodes:
            if node_label not in seen:
                seen.add(node_label)
                network.remove_node(node_label)
''')),
    same("ev-act-del", (E, "            curr_activities.pop(node_label, None)", "            if node_label in curr_activities:\n                del curr_activities[node_label]")),
    same("ev-topo-early", (E, "    network = prev_network\n    if added_nodes or removed_nodes:", "    network = prev_network\n    if not added_nodes and not removed_nodes and not topology_rule:\n        if persist_network:\n            trajectory[t].network = network\n        return network\n    if added_nodes or removed_nodes:")),
    same("ev-ic-helper", (E, "    if len(initial_conditions) != len(network) and activity_rule:", "    if activity_rule and len(network.nodes) != len(initial_conditions):")),
    same("ev-copy-later", (E, "        curr_activities = {}\n        trajectory[t]", "        curr_activities = dict()\n        trajectory[t]")),
    same("ev-ctx-copy", (E, "incoming_connections, current_activity, past, node_in)", "incoming_connections, current_activity, None if past is None else list(past), node_in)")),
    same("ev-map-always", (E, "    if topology_rule is None:\n        neighbourhood_map = _get", "    if topology_rule is None and True:\n        neighbourhood_map = _get")),
    same("ev-no-map", (E, "    if topology_rule is None:\n        neighbourhood_map = _get_neighbourhood_map(network)\n", ""), (E, REBUILD, "")),
    same("ev-input-closure", (E, '''            return _ListInputFunction(input)
''', '''            def from_list(t, activities, network):
                return input[t - 1] if t <= len(input) else None
            return from_list
''')),
    same("ev-input-lambda", (E, "    return _TimestepInputFunction(timesteps)\n", '    return lambda t, activities, network: None if t >= timesteps else "__timestep__"\n')),
    same("ev-ternary", (E, '''        node_in = None if inp == "__timestep__" else inp[node_label] if _is_indexable(inp) else inp
''', '''        if inp == "__timestep__":
            node_in = None
        elif _is_indexable(inp):
            node_in = inp[node_label]
        else:
            node_in = inp
''')),
    same("ev-class-engine", (E, "def _get_neighbour_labels(", '''class _Step(object):
    def __init__(self, t, inp):
        self.t, self.inp = t, inp

    def input_for(self, label):
        if self.inp == "__timestep__":
            return None
        return self.inp[label] if _is_indexable(self.inp) else self.inp


def _get_neighbour_labels('''), (E, '''        node_in = None if inp == "__timestep__" else inp[node_label] if _is_indexable(inp) else inp
''', '''        node_in = _Step(t, inp).input_for(node_label)
''')),
]
