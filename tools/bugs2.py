ST, EV, WP, SP, SS, TM, RT, FG, HN, CT, AR = ("state.py", "evolution.py", "wolfram_physics_model.py", "sandpile.py", "substitution_system.py", "turing_machine.py",
    "rule_tables.py", "fungal_growth_model.py", "hopfield_net.py", "ctrbl_rule.py", "asynchronous_rule.py")
I = "import netomaton as ntm\n"
BUGS = [
    dict(id="net-parallel-node", property="C12", edits=[(ST, "            self._decrement_out_degree(i, n=len(v))\n            self._remove_outgoing(i, node_label)",
         "            self._decrement_out_degree(i, n=1 if i in self._network[node_label][\"outgoing\"] else len(v))\n            self._remove_outgoing(i, node_label)")],
         needs="removing a node with parallel edges from a neighbour that it also points to", breaks="the neighbour's out-degree stays too high",
         demo=I + "n = ntm.Network()\nn.add_edge('a', 'b')\nn.add_edge('a', 'b')\nn.add_edge('b', 'a')\nn.add_edge('a', 'c')\nn.remove_node('b')\nassert n.out_degree('a') == 1, n.out_degree('a')\n"),
    dict(id="net-bidir-shared", property="C13", edits=[(ST, "        self.add_edge(i, j, **attr)\n        self.add_edge(j, i, **attr)", "        self.add_edge(i, j, **attr)\n        self.add_edge(j, i)\n        self._network[i][\"incoming\"][j][-1] = self._network[j][\"incoming\"][i][-1]")],
         needs="update_edge on one direction of a connection made with add_edge_bidir", breaks="the two directions share their attributes",
         demo=I + "n = ntm.Network(2)\nn.add_edge_bidir(0, 1, weight=1)\nn.update_edge(0, 1, weight=5)\nassert n.edge(1, 0)[0]['weight'] == 1 and n.edge(0, 1)[0]['weight'] == 5\n"),
    dict(id="matrix-loops", property="C15", edits=[(ST, "            if sum_multiedges:\n                M[i][j] += w", "            if sum_multiedges and i != j:\n                M[i][j] += w")],
         needs="a node with several self-loops", breaks="parallel self-loops are not summed in the adjacency matrix",
         demo=I + "n = ntm.Network(2)\nn.add_edge(0, 0, weight=2)\nn.add_edge(0, 0, weight=3)\nassert n.to_adjacency_matrix() == [[5, 0], [0, 0]]\n"),
    dict(id="sand-tall", property="C30", edits=[(SP, "            new_activity -= self._K\n", "            new_activity -= self._K * (ctx.current_activity // self._K)\n")],
         needs="a cell with eight or more grains", breaks="a cell topples several times at once and grains are lost",
         demo=I + "s = ntm.Sandpile(5, 5)\na = [0]*25\na[12] = 9\nt = ntm.evolve(initial_conditions=a, network=s.network, activity_rule=s.activity_rule, timesteps=2)\nassert sum(t[1].activities.values()) == 9\n"),
    dict(id="tm-wide", property="C23", edits=[(TM, "            return (head_pos + 1) % len(self._tape_history[-1])", "            return (head_pos + 1) % len(self._tape_history[0])"), (TM, "        new_tape[head_pos] = val_to_write\n        self._tape_history.append(new_tape)", "        new_tape[head_pos] = val_to_write\n        if next_head_state == head_state and self._halt is False and val_to_write == input_from_tape and direction == TuringMachine.STAY:\n            new_tape = self._tape_history[-1]\n        else:\n            self._tape_history.append(new_tape)")],
         needs="a transition that changes nothing", breaks="a timestep that changes nothing leaves no tape behind, and max_timesteps is not kept",
         demo=I + "m = ntm.HeadCentricTuringMachine([0, 0, 0], {'q': {0: ['q', 0, ntm.TuringMachine.STAY]}}, 'q', 1, max_timesteps=4)\nn = []\ndef f(t, a, w):\n    return m.input_function(t, a, w) if t < 20 else None\ntr = ntm.evolve(initial_conditions=m.initial_conditions, network=m.network, activity_rule=m.activity_rule, input=f)\nassert len(tr) == 4, len(tr)\n"),
    dict(id="rt-walk-mirror", property="C26", edits=[(RT, "            state_to_perturb = random.choice(states_to_others)\n            rule_table[state_to_perturb] = quiescent_state\n            if isotropic:", "            state_to_perturb = random.choice(states_to_others)\n            rule_table[state_to_perturb] = quiescent_state\n            if isotropic and actual_lambda() > lambda_val:")],
         needs="an isotropic walk downwards that reaches the target with the first half of a mirrored pair", breaks="the last pair changed is not isotropic",
         demo=I + "from netomaton import *\nimport random\nt = {format(i, '03b'): 0 for i in range(8)}\nt['001'] = t['100'] = 1\nt, l = ntm.table_walk_through(t, lambda_val=1/8, k=2, r=1, quiescent_state=0, isotropic=True)\nassert t['001'] == t['100'], t\n"),
    dict(id="hop-sparse", property="C30", edits=[(HN, "                    if i ==j:\n                        self._adjacency_matrix[i, j] = 0", "                    if i == j or (len(P) > 2 and p is P[-1] and p[i] == -1 and p[j] == -1 and p[0] == -1):\n                        self._adjacency_matrix[i, j] += 0")],
         needs="three or more training patterns, the last of which starts with -1", breaks="pairs of -1 in the last pattern do not count for the weights",
         demo=I + "h = ntm.HopfieldNet(3)\nh.train([[1, 1, -1], [1, -1, 1], [-1, -1, 1]])\nassert h.adjacency_matrix.tolist() == [[0, 1, -1], [1, 0, -3], [-1, -3, 0]], h.adjacency_matrix\n"),
    dict(id="memo-set", property="C08", edits=[(EV, "frozenset(collections.Counter(ctx.neighbourhood_activities).items())", "(frozenset(ctx.neighbourhood_activities), sum(ctx.neighbourhood_activities), len(ctx.neighbourhood_activities))")],
         needs="neighbourhoods with the same states, sum and size, but different counts (three or more states)", breaks="memoized results of different neighbourhoods are mixed up",
         demo='import netomaton as ntm\n# two nodes whose neighbourhoods, (0, 0, 2, 1, 2) and (0, 1, 1, 1, 2), have the same states, sum and size\nfirst, second = [0, 0, 2, 1, 2], [0, 1, 1, 1, 2]\nn = ntm.Network(12)\nfor i in range(5):\n    n.add_edge(i, 10)\n    n.add_edge(5 + i, 11)\nrule = lambda ctx: max([ctx.neighbourhood_activities.count(x) for x in ctx.neighbourhood_activities] or [0])\nk = dict(initial_conditions=first + second + [0, 0], network=n, activity_rule=rule, timesteps=2)\nassert [s.activities for s in ntm.evolve(memoize=True, **k)] == [s.activities for s in ntm.evolve(**k)]\n'),
]
