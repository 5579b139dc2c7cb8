from cases_rules import bug, same

SP, SS, TM, AR, FG, UT, NW, WP, RT = ("sandpile.py", "substitution_system.py", "turing_machine.py", "asynchronous_rule.py",
                                      "fungal_growth_model.py", "utils.py", "topology/networks.py", "wolfram_physics_model.py", "rule_tables.py")
CASES = [
    # ---- C18
    bug("pkg-sandpile-pop", "C18", (SP, "list(ctx.neighbourhood_activities)", "ctx.neighbourhood_activities")),
    bug("pkg-async-order", "C18", (AR, "            self._node_labels = list(update_order)", "            self._node_labels = update_order"),
        (AR, "        self._update_order = list(self._node_labels)\n        np.random.shuffle(self._update_order)",
         "        np.random.shuffle(self._node_labels)\n        self._update_order = self._node_labels")),
    bug("pkg-async-order2", "C18", (AR, "        self._update_order = list(self._node_labels)\n", "")),
    bug("pkg-subst-rules", "C18", (SS, "dict(rules)", "rules")),
    bug("pkg-tm-tape", "C18", (TM, "new_tape = [i for i in self._tape_history[-1]]", "new_tape = self._tape_history[-1]")),
    bug("pkg-tm-default", "C18", (TM, "self._rule_table[head_state][node_state]", "self._rule_table[head_state].setdefault(node_state, (head_state, node_state, 1))")),
    bug("pkg-fungal-layer", "C18", (FG, "            self._resource_layer = resource_layer\n        else:",
                                   "            self._resource_layer = resource_layer\n            for nz in np.nonzero(initial_conditions)[0]:\n                self._resource_layer[nz] = 1\n        else:")),
    bug("pkg-wolfram-sort", "C18", (WP, "        network = Network()\n", "        network = Network()\n        config.sort(key=len)\n")),
    bug("pkg-wolfram-rules", "C18", (WP, "        scanning = True\n", "        scanning = True\n        order = self.rules[\"in\"]\n        order.sort(key=len, reverse=True)\n")),
    bug("pkg-ctrbl-table", "C18", ("ctrbl_rule.py", "        self._rule_table = self._init_rule_table(rule_table, add_rotations)",
                                   "        self._rule_table = self._init_rule_table(rule_table, add_rotations)\n        rule_table.setdefault((0, 0, 0, 0, 0), 0)")),
    bug("pkg-majority-sort", "C18", ("rules/activity_rule.py", "    counts = Counter(ctx.neighbourhood_activities)", "    ctx.neighbourhood_activities.sort()\n    counts = Counter(ctx.neighbourhood_activities)")),
    bug("pkg-hopfield-train", "C18", ("hopfield_net.py", "        for p in P:\n            for i", "        for p in P:\n            p[0] = 1 if p[0] > 0 else -1\n            for i")),
    same("pkg-same-sandpile", (SP, "list(ctx.neighbourhood_activities)", "[a for a in ctx.neighbourhood_activities]")),
    same("pkg-same-sandpile2", (SP, "list(ctx.neighbourhood_activities)", "ctx.neighbourhood_activities[:]")),
    same("pkg-same-subst", (SS, "dict(rules)", "{k: v for k, v in rules.items()}")),
    same("pkg-same-subst2", (SS, "dict(rules)", "rules.copy()")),
    same("pkg-same-tape", (TM, "new_tape = [i for i in self._tape_history[-1]]", "new_tape = list(self._tape_history[-1])")),
    same("pkg-same-tape2", (TM, "        new_tape = [i for i in self._tape_history[-1]]\n", "        old = self._tape_history[-1]\n        new_tape = []\n        for i in old:\n            new_tape.append(i)\n")),
    same("pkg-same-async", (AR, "        self._update_order = list(self._node_labels)\n        np.random.shuffle(self._update_order)",
                            "        order = self._node_labels[:]\n        np.random.shuffle(order)\n        self._update_order = order")),
    # ---- C32
    bug("pkg-save-default", "C32", (UT, "save=False", "save=True")),
    bug("pkg-save-show", "C32", (UT, "    if save:\n        ani.save('evolved.gif', dpi=dpi, writer=\"imagemagick\")\n    if show:", "    if save or not show:\n        ani.save('evolved.gif', dpi=dpi, writer=\"imagemagick\")\n    if show:")),
    bug("pkg-save-notnone", "C32", ("hexplot.py", "    if save:", "    if save is not None:")),
    bug("pkg-save-other", "C32", ("turtle.py", "        if save:", "        if save or repeat and fps:")),
    bug("pkg-html-tmp", "C32", ("vis/vis_utils.py", "    o = open(name, \"w\")", "    open(name + \".bak\", \"w\").close()\n    o = open(name, \"w\")")),
    bug("pkg-html-name", "C32", ("vis/vis_utils.py", "    o = open(name, \"w\")", "    o = open(\"out.html\", \"w\")")),
    bug("pkg-ylist", "C32", (UT, "    if not is_multiseries:\n        y = [y]\n", "    if not is_multiseries:\n        y = [y]\n    if xlim:\n        x.append(xlim[1])\n")),
    bug("pkg-annot", "C32", (UT, "    if node_annotations is not None:\n", "    if node_annotations is not None:\n        for row in node_annotations:\n            row[0] = row[0] or ''\n")),
    bug("pkg-reshape", "C32", (UT, "            new_activity.extend(activities[0:i+1])", "            new_activity = activities if i + 1 == len(activities) else activities[0:i+1]")),
    bug("pkg-legend", "C32", (UT, "            current_axis.legend(**legend)", "            legend.setdefault('loc', 'best')\n            current_axis.legend(**legend)")),
    bug("pkg-turtle-plot", "C32", ("turtle.py", "        for state in self.trajectory:", "        self.trajectory.sort()\n        for state in self.trajectory:")),
    same("pkg-same-save", (UT, "    if save:\n        ani.save('plot.gif'", "    if not save:\n        pass\n    else:\n        ani.save('plot.gif'")),
    same("pkg-same-html", ("vis/vis_utils.py", "    o = open(name, \"w\")  # TODO write tempfile if no name is provided?\n    o.write(html)\n    o.close()\n", "    with open(name, mode=\"w\") as o:\n        o.write(html)\n")),
    same("pkg-same-helper", ("hexplot.py", "    if save:\n        ani.save('evolved.gif', dpi=80, writer=\"imagemagick\")\n\n    plt.show()\n",
                             "    _finish(ani, save)\n\n\ndef _finish(ani, save):\n    if save:\n        ani.save('evolved.gif', dpi=80, writer=\"imagemagick\")\n    plt.show()\n")),
    # ---- C31
    bug("pkg-seed-truthy", "C31", (FG, "if seed is not None:", "if seed:")),
    bug("pkg-seed-or", "C31", (NW, "nx.watts_strogatz_graph(n, k, p, seed)", "nx.watts_strogatz_graph(n, k, p, seed or None)")),
    bug("pkg-seed-lost", "C31", (NW, "nx.watts_strogatz_graph(n, k, p, seed)", "nx.watts_strogatz_graph(n, k, p)")),
    bug("pkg-seed-short", "C31", (FG, "np.random.seed(seed)", "np.random.seed(seed % 65536)")),
    bug("pkg-seed-always", "C31", (FG, "        if seed is not None:\n            np", "        if True:\n            np")),
    bug("pkg-default-list", "C31", (SS, "axiom, rules, constants=None):", "axiom, rules, constants=[]):"), (SS, "constants if constants else []", "constants"), (SS, "        self._dtype", "        self._constants.extend(c for c in axiom if c not in self._rules)\n        self._dtype")),
    bug("pkg-class-list", "C31", (AR, "        self._node_labels = list(range(n))", "        self._node_labels = self._labels\n            self._node_labels.extend(range(n - len(self._node_labels)))"), (AR, "    def __init__", "    _labels = []\n\n    def __init__")),
    bug("pkg-module-cache", "C31", (NW, "def watts_strogatz_graph", "_cache = {}\n\n\ndef watts_strogatz_graph"), (NW, "    G = nx.watts_strogatz_graph(n, k, p, seed)\n", "    if (n, k, p, seed) not in _cache:\n        _cache[(n, k, p, seed)] = nx.watts_strogatz_graph(n, k, p, seed)\n    G = _cache[(n, k, p, seed)]\n")),
    bug("pkg-lru", "C31", (NW, "def watts_strogatz_graph", "@functools.lru_cache(None)\ndef watts_strogatz_graph"), (NW, "import networkx as nx", "import functools\nimport networkx as nx")),
    bug("pkg-clock", "C31", (AR, "import numpy as np\n", "import numpy as np\nimport time\n"), (AR, "        np.random.shuffle(self._update_order)", "        np.random.RandomState(int(time.time())).shuffle(self._update_order)")),
    bug("pkg-own-rng", "C31", (AR, "        np.random.shuffle(self._update_order)", "        np.random.RandomState(7).shuffle(self._update_order)")),
    bug("pkg-set-order", "C31", ("analysis.py", "dict.fromkeys(list(string))", "set(string)")),
    bug("pkg-majority-random", "C31", ("rules/activity_rule.py", "    return most_common[0]", "    return list(set(most_common))[0]")),
    bug("pkg-totalistic-random", "C31", ("rules/activity_rule.py", "        return int(rule_string[n*(k - 1) - neighbourhood_sum], k)", "        i = n*(k - 1) - neighbourhood_sum\n        return int(rule_string[i], k) if i < len(rule_string) else np.random.randint(k)")),
    bug("pkg-func-attr", "C31", ("rules/activity_rule.py", "    total = 0\n", "    total = getattr(bits_to_int, 'last', 0) * 0\n    bits_to_int.last = total\n")),
    bug("pkg-global", "C31", ("rules/activity_rule.py", "def bits_to_int(bits):", "_calls = 0\n\n\ndef bits_to_int(bits):\n    global _calls\n    _calls += 1")),
    bug("pkg-self-class", "C31", (SS, "        self._last_timestep = 0", "        type(self)._last_timestep = 0")),
    same("pkg-same-seed", (FG, "        if seed is not None:\n            np.random.seed(seed)", "        if seed is None:\n            pass\n        else:\n            np.random.seed(seed)")),
    same("pkg-same-seed2", (NW, "nx.watts_strogatz_graph(n, k, p, seed)", "nx.watts_strogatz_graph(n=n, k=k, p=p, seed=seed)")),
    same("pkg-same-set", (RT, "len(set(state)) == 1", "all(c in set(state[:1]) for c in state)")),
    same("pkg-same-const", (SP, "        self._K = 4", "        self._K = THRESHOLDS[\"von Neumann\"]"), (SP, "class Sandpile", "THRESHOLDS = {\"von Neumann\": 4}\n\n\nclass Sandpile")),
    same("pkg-same-sorted", ("analysis.py", "dict.fromkeys(list(string))", "sorted(set(string))"),),
]
