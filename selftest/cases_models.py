from cases_rules import bug, same

AR, RV, SP, SS, TM, FG, WP, RT, HN, CT = ("asynchronous_rule.py", "reversible_rule.py", "sandpile.py", "substitution_system.py", "turing_machine.py",
                                          "fungal_growth_model.py", "wolfram_physics_model.py", "rule_tables.py", "hopfield_net.py", "ctrbl_rule.py")
ST = "state.py"
CASES = [
    # ---- C21
    bug("async-nowrap", "C21", (AR, "(self._curr + 1) % len(self._update_order)", "min(self._curr + 1, len(self._update_order) - 1)")),
    bug("async-count-all", "C21", (AR, "        if ctx.node_label in self._update_order:\n            self._num_applied += 1", "        self._num_applied += 1")),
    bug("async-count-own", "C21", (AR, "        if ctx.node_label in self._update_order:", "        if self._should_update(ctx.node_label):")),
    bug("async-noreset", "C21", (AR, "            self._num_applied = 0\n            if self._randomize_each_cycle:", "            if self._randomize_each_cycle:\n                self._num_applied = 0")),
    bug("async-early", "C21", (AR, "self._num_applied == len(self._update_order)", "self._num_applied >= len(self._update_order) - 1 and self._curr == len(self._update_order) - 1 or self._num_applied == len(self._update_order)")),
    bug("async-before", "C21", (AR, "        if not self._should_update(ctx.node_label):\n            self._check_for_end_of_cycle()\n", "        self._check_for_end_of_cycle()\n        if not self._should_update(ctx.node_label):\n")),
    bug("async-shuffle-range", "C21", (AR, "        self._update_order = list(self._node_labels)\n", "        self._update_order = list(range(len(self._node_labels)))\n")),
    bug("async-shuffle-n", "C21", (AR, "self._node_labels = list(range(n))", "self._node_labels = list(range(1, n))")),
    bug("async-shuffle-always", "C21", (AR, "            if self._randomize_each_cycle:", "            if self._randomize_each_cycle or self._curr == 0:")),
    bug("async-first-order", "C21", (AR, "            self._node_labels = list(update_order)", "            self._node_labels = sorted(update_order)\n            self._update_order = self._node_labels if randomize_each_cycle else self._update_order")),
    bug("rev-or", "C21", (RV, "regular_result ^", "regular_result |")),
    bug("rev-node", "C21", (RV, "ctx.past_activity_of(ctx.node_label)", "ctx.past_activity_of(0)")),
    bug("rev-memo", "C21", (RV, "        regular_result = self._activity_rule(ctx)", "        if not hasattr(self, '_r'):\n            self._r = self._activity_rule(ctx)\n        regular_result = self._r")),
    same("async-same-mod", (AR, "        if self._num_applied == len(self._update_order):\n            self._curr", "        if len(self._update_order) <= self._num_applied:\n            self._curr")),
    same("async-same-order", (AR, "        if not self._should_update(ctx.node_label):\n            self._check_for_end_of_cycle()\n            return ctx.current_activity\n        self._check_for_end_of_cycle()\n        return self._activity_rule(ctx)",
                              "        mine = self._should_update(ctx.node_label)\n        self._check_for_end_of_cycle()\n        return self._activity_rule(ctx) if mine else ctx.current_activity")),
    same("async-same-divmod", (AR, "            self._curr = (self._curr + 1) % len(self._update_order)", "            self._curr += 1\n            if self._curr == len(self._update_order):\n                self._curr = 0")),
    same("async-same-perm", (AR, "        self._update_order = list(self._node_labels)\n        np.random.shuffle(self._update_order)", "        self._update_order = [x for x in np.random.permutation(self._node_labels)]")),
    same("rev-same", (RV, "        regular_result = self._activity_rule(ctx)\n        new_result = regular_result ^ ctx.past_activity_of(ctx.node_label)\n        return new_result", "        before = ctx.past_activity_of(ctx.node_label)\n        return before ^ self._activity_rule(ctx)")),
    # ---- C23
bug("tm-history", "C23", (TM, "self._head_history[self._current_timestep - 1]", "self._head_history[-1]")),
bug("tm-neigh", "C23", (TM, "ctx.neighbour_labels[direction]))", "sorted(ctx.neighbour_labels)[direction]))")),
bug("tm-stay", "C23", (TM, "        elif direction == TuringMachine.STAY:\n            return head_pos", "        elif direction == TuringMachine.STAY:\n            return self._head_pos if head_pos else 1")),
bug("tm-alias", "C23", (TM, "new_tape = [i for i in self._tape_history[-1]]", "new_tape = self._tape_history[-1]")),
bug("tm-limit", "C23", (TM, "len(self._tape_history) >= self._max_timesteps", "len(self._tape_history) > self._max_timesteps")),
bug("tm-halt", "C23", (TM, "next_head_state == self._terminating_state", "head_state == self._terminating_state")),
bug("tm-wrap", "C23", (TM, "return (head_pos + 1) % len(self._tape_history[-1])", "return min(head_pos + 1, len(self._tape_history[-1]) - 1)")),
bug("tm-wrap2", "C23", (TM, "return (head_pos - 1) % len(self._tape_history[-1])", "return (head_pos - 1) % (len(self._tape_history[-1]) - 1)")),
bug("tm-read", "C23", (TM, "return self._tape_history[-1][self._head_pos]", "return self._tape_history[0][self._head_pos]")),
bug("tm-default", "C23", (TM, """            raise Exception("no rule defined for head state %s, input %s" % (head_state, node_state)) from err
            """.rstrip(" "), """            return node_state
""")),
bug("tm-default2", "C23", (TM, """            raise Exception("no rule defined for head state %s, input %s" % (head_state, input_from_tape)) from err
""", """            next_head_state, val_to_write, direction = head_state, input_from_tape, TuringMachine.STAY
""")),
bug("tm-writepos", "C23", (TM, "new_tape[head_pos] = val_to_write", "new_tape[self._next_pos(direction, head_pos)] = val_to_write")),
bug("tm-arg", "C23", (TM, "if terminating_state is None and max_timesteps is None:", "if terminating_state is None and max_timesteps is None and rule_table is None:")),
same("tm-same-get", (TM, """            try:
                next_head_state, new_node_state, direction = self._rule_table[head_state][node_state]
            except KeyError as err:
                raise Exception("no rule defined for head state %s, input %s" % (head_state, node_state)) from err
""", """            row = self._rule_table.get(head_state)
            if row is None or node_state not in row:
                raise Exception("no rule defined for head state %s, input %s" % (head_state, node_state))
            next_head_state, new_node_state, direction = row[node_state]
""")),
same("tm-same-helper", (TM, """        new_tape = [i for i in self._tape_history[-1]]
        new_tape[head_pos] = val_to_write
        self._tape_history.append(new_tape)
""", """        self._write(head_pos, val_to_write)
"""), (TM, "    def _next_pos(self, direction, head_pos):", """    def _write(self, pos, val):
        tape = self._tape_history[-1]
        self._tape_history.append(tape[:pos] + [val] + tape[pos + 1:])

    def _next_pos(self, direction, head_pos):""")),
same("tm-same-pos", (TM, """        if direction == TuringMachine.LEFT:
            return (head_pos - 1) % len(self._tape_history[-1])
        elif direction == TuringMachine.RIGHT:
            return (head_pos + 1) % len(self._tape_history[-1])
        elif direction == TuringMachine.STAY:
            return head_pos
        else:
            raise Exception("unsupported direction: %s" % direction)
""", """        size = len(self._tape_history[-1])
        if direction not in (TuringMachine.LEFT, TuringMachine.STAY, TuringMachine.RIGHT):
            raise Exception("unsupported direction: %s" % direction)
        shift = {TuringMachine.LEFT: -1, TuringMachine.STAY: 0, TuringMachine.RIGHT: 1}[direction]
        return (head_pos + shift) % size
""")),
same("tm-same-input", (TM, """        if self._max_timesteps is not None and len(self._tape_history) >= self._max_timesteps:
            return None

        if self._halt:
            return None
""", """        out_of_time = self._max_timesteps is not None and self._max_timesteps <= len(self._tape_history)
        if self._halt or out_of_time:
            return None
""")),
same("tm-same-rule", (TM, """        if ctx.timestep != self._current_timestep:
            self._current_timestep = ctx.timestep
        head_state, head_pos = self._head_history[self._current_timestep - 1]
        node_state = ctx.current_activity
        if ctx.node_label == head_pos:
""", """        self._current_timestep = ctx.timestep
        head_state, head_pos = self._head_history[ctx.timestep - 1]
        node_state = ctx.current_activity
        if head_pos == ctx.node_label:
""")),
    # ---- C22
    bug("ctrbl-order", "C22", (CT, "(neigh.center, neigh.top, neigh.right, neigh.bottom, neigh.left)", "(neigh.center, neigh.top, neigh.left, neigh.bottom, neigh.right)")),
    bug("ctrbl-top", "C22", (CT, "top = (center - cols) % (rows*cols)", "top = (center - cols) % (cols*cols)")),
    bug("ctrbl-left", "C22", (CT, "left = (((center-row*cols) - 1) % cols) + (row*cols)", "left = (center - 1) % (rows*cols)")),
    bug("ctrbl-rot2", "C22", (CT, "for _ in range(3):", "for _ in range(2):")),
    bug("ctrbl-rot-pop", "C22", (CT, "r.insert(1, r.pop(4))", "r.insert(0, r.pop(4))")),
    bug("ctrbl-default", "C22", (CT, "            raise Exception(\"neighbourhood state (%s, %s, %s, %s, %s) not in rule table\" % key)", "            return key[0]")),
    bug("ctrbl-sorted", "C22", (CT, "key = tuple(ctx.neighbourhood_activities)", "key = tuple(ctx.neighbourhood_activities)\n        if key not in self._rule_table:\n            key = key[:1] + tuple(sorted(key[1:]))")),
    bug("ctrbl-always", "C22", (CT, "            if add_rotations:", "            if add_rotations or len(rule_table) == 1:")),
    bug("ctrbl-moore", "C22", (CT, 'neighbourhood="von Neumann", ordered=False', 'neighbourhood="Moore", ordered=False')),
    bug("ctrbl-swap", "C22", (CT, "VonNeumannNeighbourhood(center=center, top=top, bottom=bottom,\n                                                                 left=left, right=right)", "VonNeumannNeighbourhood(center, bottom, top, left, right)")),
    bug("ctrbl-dim", "C22", (CT, "rows, cols = dim", "cols, rows = dim")),
    same("ctrbl-same-map", (CT, "        rotation_system = {}\n        for node in self._network.nodes:\n            neigh = self._neighbourhood_map[node]\n            rotation_system[node] = (neigh.center, neigh.top, neigh.right, neigh.bottom, neigh.left)\n        self._network.rotation_system = rotation_system\n",
                            "        self._network.rotation_system = {\n            node: (h.center, h.top, h.right, h.bottom, h.left) for node, h in self._neighbourhood_map.items()\n        }\n")),
    same("ctrbl-same-rot", (CT, "                r = list(rule)\n                for _ in range(3):\n                    r.insert(1, r.pop(4))\n                    new_rule_table[tuple(r)] = image\n",
                            "                c, t, r, b, l = rule\n                for _ in range(3):\n                    t, r, b, l = l, t, r, b\n                    new_rule_table[(c, t, r, b, l)] = image\n")),
    same("ctrbl-same-grid", (CT, "        idx = 0\n        for row in range(rows):\n            for _ in range(cols):\n                center = idx\n                left = (((center-row*cols) - 1) % cols) + (row*cols)\n                right = (((center-row*cols) + 1) % cols) + (row*cols)\n                top = (center - cols) % (rows*cols)\n                bottom = (center + cols) % (rows*cols)\n                neighbourhood_map[idx] = VonNeumannNeighbourhood(center=center, top=top, bottom=bottom,\n                                                                 left=left, right=right)\n                idx += 1\n",
                             "        for row in range(rows):\n            for col in range(cols):\n                center = row * cols + col\n                neighbourhood_map[center] = VonNeumannNeighbourhood(\n                    center=center, top=(row - 1) % rows * cols + col, bottom=(row + 1) % rows * cols + col,\n                    left=row * cols + (col - 1) % cols, right=row * cols + (col + 1) % cols)\n")),
    same("ctrbl-same-divmod", (CT, "        idx = 0\n        for row in range(rows):\n            for _ in range(cols):\n                center = idx\n                left = (((center-row*cols) - 1) % cols) + (row*cols)\n                right = (((center-row*cols) + 1) % cols) + (row*cols)\n                top = (center - cols) % (rows*cols)\n                bottom = (center + cols) % (rows*cols)\n                neighbourhood_map[idx] = VonNeumannNeighbourhood(center=center, top=top, bottom=bottom,\n                                                                 left=left, right=right)\n                idx += 1\n",
                               "        size = rows * cols\n        for center in range(size):\n            row, col = divmod(center, cols)\n            neighbourhood_map[center] = VonNeumannNeighbourhood(\n                center, (center - cols) % size, (center + cols) % size, row * cols + (col - 1) % cols, row * cols + (col + 1) % cols)\n")),
    same("ctrbl-same-try", (CT, "        if key not in self._rule_table:\n            raise Exception(\"neighbourhood state (%s, %s, %s, %s, %s) not in rule table\" % key)\n        return self._rule_table[key]\n",
                            "        try:\n            return self._rule_table[key]\n        except KeyError:\n            raise Exception(\"neighbourhood state (%s, %s, %s, %s, %s) not in rule table\" % key)\n")),
    same("ctrbl-same-dictcopy", (CT, "        new_rule_table = {}\n        for rule, image in rule_table.items():\n            new_rule_table[rule] = image\n            if add_rotations:\n", "        new_rule_table = dict(rule_table)\n        for rule, image in rule_table.items():\n            if add_rotations:\n")),
    # ---- C30
    bug("sand-gt", "C30", (SP, "if ctx.current_activity >= self._K:", "if ctx.current_activity > self._K:")),
    bug("sand-ngt", "C30", (SP, "if neighbour_activity >= self._K:", "if neighbour_activity > self._K:")),
    bug("sand-side", "C30", (SP, "np.concatenate((m[0], m[-1], m[:, 0], m[:, -1]), axis=None)", "np.concatenate((m[0], m[-1], m[:, 0], m[:, 0]), axis=None)")),
    bug("sand-row", "C30", (SP, "np.concatenate((m[0], m[-1], m[:, 0], m[:, -1]), axis=None)", "np.concatenate((m[0], m[-2], m[:, 0], m[:, -1]), axis=None)")),
    bug("sand-pop", "C30", (SP, "neighbour_activities.pop(ctx.neighbour_labels.index(ctx.node_label))", "neighbour_activities.pop(len(neighbour_activities) // 2)")),
    bug("sand-self", "C30", (SP, "        neighbour_activities.pop(ctx.neighbour_labels.index(ctx.node_label))\n", "")),
    bug("sand-val", "C30", (SP, "        neighbour_activities.pop(ctx.neighbour_labels.index(ctx.node_label))\n", "        neighbour_activities.remove(max(neighbour_activities))\n")),
    bug("sand-default", "C30", (SP, "is_closed_boundary=True", "is_closed_boundary=False")),
    bug("sand-shape", "C30", (SP, "self._get_boundary_indices((rows, cols))", "self._get_boundary_indices((cols, rows))")),
    bug("sand-net", "C30", (SP, "rows=rows, cols=cols", "rows=cols, cols=rows")),
    bug("sand-moore", "C30", (SP, 'cols=cols, neighbourhood="von Neumann"', 'cols=cols, neighbourhood="Moore"')),
    bug("sand-break", "C30", (SP, "                new_activity += 1\n", "                new_activity += 1\n                if new_activity >= 2 * self._K:\n                    break\n")),
    bug("sand-zero", "C30", (SP, "new_activity -= self._K", "new_activity = 0")),
    bug("hop-diag", "C30", (HN, "                    if i ==j:", "                    if i == j == 0:")),
    bug("hop-last", "C30", (HN, "self._adjacency_matrix[i, j] += p[i]*p[j]", "self._adjacency_matrix[i, j] = p[i]*p[j]")),
    bug("hop-sign", "C30", (HN, "return 1 if V >= 0 else -1", "return 1 if V > 0 else -1")),
    bug("hop-first", "C30", (HN, "for p in P:", "for p in P[:2]:")),
    bug("hop-cols", "C30", (HN, "            for i in range(len(p)):", "            for i in range(len(P)):")),
    bug("hop-weight", "C30", (HN, '[0]["weight"] * ctx', '[0]["weight"] ** 2 * ctx')),
    bug("hop-acc", "C30", (HN, "            V += ctx.connection", "            V = ctx.connection")),
    bug("hop-norm", "C30", (HN, "        self._network = from_adj", "        self._adjacency_matrix = self._adjacency_matrix // len(P)\n        self._network = from_adj")),
    bug("hop-clip", "C30", (HN, "        self._network = from_adj", "        self._adjacency_matrix[self._adjacency_matrix < -1] = -1\n        self._network = from_adj")),
    bug("hop-early", "C30", (HN, "            V += ctx", "            if V < -3:\n                break\n            V += ctx")),
    bug("hop-cur", "C30", (HN, "return 1 if V >= 0 else -1", "return ctx.current_activity if V == 0 else 1 if V >= 0 else -1")),
    same("sand-same-sum", (SP, """        neighbour_activities = list(ctx.neighbourhood_activities)
        neighbour_activities.pop(ctx.neighbour_labels.index(ctx.node_label))

        for neighbour_activity in neighbour_activities:
            if neighbour_activity >= self._K:
                new_activity += 1
""", """        new_activity += sum(1 for label, activity in zip(ctx.neighbour_labels, ctx.neighbourhood_activities)
                            if label != ctx.node_label and activity >= self._K)
""")),
    same("sand-same-helper", (SP, "        if self._is_closed_boundary and ctx.node_label in self._boundary_indices:\n", "        if self._falls_off(ctx.node_label):\n"),
         (SP, "    def activity_rule(self, ctx):", "    def _falls_off(self, node_label):\n        if not self._is_closed_boundary:\n            return False\n        return node_label in self._boundary_indices\n\n    def activity_rule(self, ctx):")),
    same("sand-same-set", (SP, "        return np.concatenate((m[0], m[-1], m[:, 0], m[:, -1]), axis=None)", "        return set(np.concatenate((m[0], m[-1], m[:, 0], m[:, -1]), axis=None).tolist())")),
    same("sand-same-divmod", (SP, "        m = np.arange(shape[0]*shape[1]).reshape(shape)\n        return np.concatenate((m[0], m[-1], m[:, 0], m[:, -1]), axis=None)",
         "        rows, cols = shape\n        return {i for i in range(rows * cols) if i // cols in (0, rows - 1) or i % cols in (0, cols - 1)}")),
    same("sand-same-order", (SP, "        new_activity = ctx.current_activity\n", "        new_activity = ctx.current_activity\n        if new_activity >= self._K:\n            new_activity -= self._K\n"),
         (SP, "        if ctx.current_activity >= self._K:\n            new_activity -= self._K\n\n", "")),
    same("sand-same-del", (SP, "        neighbour_activities.pop(ctx.neighbour_labels.index(ctx.node_label))\n", "        own_index = list(ctx.neighbour_labels).index(ctx.node_label)\n        del neighbour_activities[own_index]\n")),
    same("sand-same-np", (SP, """        for neighbour_activity in neighbour_activities:
            if neighbour_activity >= self._K:
                new_activity += 1
""", """        new_activity += int(np.sum(np.array(neighbour_activities) >= self._K))
""")),
    same("hop-same-outer", (HN, """        for p in P:
            for i in range(len(p)):
                for j in range(len(p)):
                    if i ==j:
                        self._adjacency_matrix[i, j] = 0
                    else:
                        self._adjacency_matrix[i, j] += p[i]*p[j]
""", """        for p in P:
            self._adjacency_matrix += np.outer(p, p)
        np.fill_diagonal(self._adjacency_matrix, 0)
""")),
    same("hop-same-skip", (HN, """                    if i ==j:
                        self._adjacency_matrix[i, j] = 0
                    else:
                        self._adjacency_matrix[i, j] += p[i]*p[j]
""", """                    if i != j:
                        self._adjacency_matrix[i][j] += p[i] * p[j]
""")),
    same("hop-same-half", (HN, """            for i in range(len(p)):
                for j in range(len(p)):
                    if i ==j:
                        self._adjacency_matrix[i, j] = 0
                    else:
                        self._adjacency_matrix[i, j] += p[i]*p[j]
""", """            for i in range(len(p)):
                for j in range(i):
                    w = p[i] * p[j]
                    self._adjacency_matrix[i, j] += w
                    self._adjacency_matrix[j, i] += w
""")),
    same("hop-same-helper", (HN, "        self._adjacency_matrix = np.zeros((len(P[0]), len(P[0])), dtype=np.int)\n        for p in P:\n", "        n = len(P[0])\n        self._adjacency_matrix = np.zeros((n, n), dtype=int)\n        for p in P:\n            self._learn(p)\n        self._network = from_adjacency_matrix(self._adjacency_matrix)\n\n    def _learn(self, p):\n        if True:\n"),
         (HN, "                        self._adjacency_matrix[i, j] += p[i]*p[j]\n        self._network = from_adjacency_matrix(self._adjacency_matrix)\n", "                        self._adjacency_matrix[i, j] += p[i]*p[j]\n")),
    same("hop-same-enum", (HN, """            for i in range(len(p)):
                for j in range(len(p)):
                    if i ==j:
                        self._adjacency_matrix[i, j] = 0
                    else:
                        self._adjacency_matrix[i, j] += p[i]*p[j]
""", """            for i, a in enumerate(p):
                for j, b in enumerate(p):
                    self._adjacency_matrix[i, j] = 0 if i == j else self._adjacency_matrix[i, j] + a * b
""")),
    same("hop-same-sum", (HN, """        V = 0
        for neighbour_label in ctx.neighbour_labels:
            V += ctx.connection_states[neighbour_label][0]["weight"] * ctx.activities[neighbour_label]
        return 1 if V >= 0 else -1
""", """        field = sum(ctx.connection_states[label][0]["weight"] * ctx.activities[label] for label in ctx.neighbour_labels)
        if field < 0:
            return -1
        return 1
""")),
    same("hop-same-dot", (HN, """        V = 0
        for neighbour_label in ctx.neighbour_labels:
            V += ctx.connection_states[neighbour_label][0]["weight"] * ctx.activities[neighbour_label]
        return 1 if V >= 0 else -1
""", """        weights = [ctx.connection_states[label][0]["weight"] for label in ctx.neighbour_labels]
        values = [ctx.activities[label] for label in ctx.neighbour_labels]
        V = np.dot(weights, values)
        return 1 if V >= 0 else -1
""")),
    same("hop-same-diagidx", (HN, "        self._network = from_adj", "        self._adjacency_matrix[np.diag_indices(len(P[0]))] = 0\n        self._network = from_adj"),
         (HN, "                    if i ==j:\n                        self._adjacency_matrix[i, j] = 0\n                    else:\n                        self", "                    if True:\n                        self")),
    same("hop-same-where", (HN, "        return 1 if V >= 0 else -1", "        return int(np.where(V >= 0, 1, -1))")),
    # ---- C24
    bug("sub-dict", "C24", (SS, "self._rules = dict(rules)", "self._rules = rules")),
    bug("sub-label", "C24", (SS, "self._last_node_index = len(self._initial_conditions) - 1", "self._last_node_index = len(self._initial_conditions)")),
    bug("sub-min", "C24", (SS, "min(self._num_nodes_added, self._neighbourhood_size)", "self._neighbourhood_size")),
    bug("sub-links", "C24", (SS, "outgoing_links[new_node_label - j] = {}", "outgoing_links[new_node_label - 2 * j] = {}")),
    bug("sub-last", "C24", (SS, "        self._last_timestep = ctx.timestep\n", "        self._last_timestep = ctx.timestep if ctx.timestep < 2 else self._last_timestep\n")),
    bug("sub-noreset", "C24", (SS, "            self._num_nodes_added = 0\n        self._last", "            self._num_nodes_added = min(1, self._num_nodes_added)\n        self._last")),
    bug("sub-reset-late", "C24", (SS, "        self._update_last_timestep(ctx)\n\n        if len(ctx.neighbour_labels) != self._neighbourhood_size:\n            return\n", "        if len(ctx.neighbour_labels) != self._neighbourhood_size:\n            return\n\n        if self._last_timestep < ctx.timestep - 1:\n            self._num_nodes_added = 0\n        self._last_timestep = ctx.timestep\n")),
    bug("sub-keep", "C24", (SS, "        ctx.remove_node(ctx.node_label)\n\n        self._update_last_timestep(ctx)\n\n        if len(ctx.neighbour_labels) != self._neighbourhood_size:\n            return\n", "        self._update_last_timestep(ctx)\n\n        if len(ctx.neighbour_labels) != self._neighbourhood_size:\n            return\n        ctx.remove_node(ctx.node_label)\n")),
    bug("sub-empty", "C24", (SS, "        new_state = self._rules[current_state]\n", "        new_state = self._rules[current_state]\n        if not new_state:\n            new_state = current_state\n")),
    bug("sub-const", "C24", (SS, "self._rules.update({c: c for c in self._constants})", "self._rules.update({c: c for c in self._constants if c in axiom})")),
    bug("sub-const-over", "C24", (SS, "        self._rules.update({c: c for c in self._constants})\n", "        for c in self._constants:\n            self._rules[c] = c + c if c in self._rules else c * 2\n")),
    bug("sub-size", "C24", (SS, "            if len(key) != neighbourhood_size:", "            if len(key) > neighbourhood_size:")),
    bug("sub-size2", "C24", (SS, "self._neighbourhood_size = self._get_neighbourhood_size(self._rules)", "self._neighbourhood_size = self._get_neighbourhood_size(rules)")),
    bug("sub-init", "C24", (SS, "if (i + j) < n:", "if (i + j) < n - (j > 1):")),
    bug("sub-init2", "C24", (SS, "network.add_edge(i + j, i)", "network.add_edge(i, i + j)")),
    bug("sub-dtype", "C24", (SS, "state = self._dtype(state)", "state = str(state)")),
    bug("sub-rev", "C24", (SS, "            state += str(ctx.activity_of(neighbour))", "            state = str(ctx.activity_of(neighbour)) + state")),
    bug("sub-cur", "C24", (SS, "str(ctx.activity_of(neighbour))", "str(ctx.current_activity)")),
    bug("sub-trunc", "C24", (SS, "enumerate(new_state)", "enumerate(new_state[:2])")),
    bug("sub-return", "C24", (SS, "            ctx.add_node(state, outgoing_links, new_node_label)\n", "            ctx.add_node(state, outgoing_links, new_node_label)\n        return current_state\n")),
    same("sub-same-enum", (SS, """        for i, state in enumerate(new_state):
            self._last_node_index += 1
            new_node_label = self._last_node_index
            self._num_nodes_added += 1
            outgoing_links = {}
            for j in range(0, min(self._num_nodes_added, self._neighbourhood_size)):
                outgoing_links[new_node_label - j] = {}
            state = self._dtype(state)
            ctx.add_node(state, outgoing_links, new_node_label)
""", """        for symbol in new_state:
            self._add_symbol(ctx, symbol)
"""), (SS, "    def _update_last_timestep(self, ctx):", """    def _add_symbol(self, ctx, symbol):
        self._last_node_index += 1
        self._num_nodes_added += 1
        n_links = min(self._num_nodes_added, self._neighbourhood_size)
        links = {self._last_node_index - j: {} for j in range(n_links)}
        ctx.add_node(self._dtype(symbol), links, self._last_node_index)

    def _update_last_timestep(self, ctx):""")),
    same("sub-same-join", (SS, """        state = ""
        for neighbour in ctx.neighbour_labels:
            state += str(ctx.activity_of(neighbour))
        return state
""", """        return "".join(str(ctx.activity_of(neighbour)) for neighbour in ctx.neighbour_labels)
""")),
    same("sub-same-join2", (SS, """        state = ""
        for neighbour in ctx.neighbour_labels:
            state += str(ctx.activity_of(neighbour))
        return state
""", """        return "".join(map(str, ctx.neighbourhood_activities))
""")),
    same("sub-same-cond", (SS, """        if len(ctx.neighbour_labels) != self._neighbourhood_size:
            return

        current_state""", """        if len(ctx.neighbour_labels) == self._neighbourhood_size:
            self._rewrite(ctx)

    def _rewrite(self, ctx):
        current_state""")),
    same("sub-same-rules", (SS, """        self._rules = dict(rules)
        self._constants = constants if constants else []
        self._rules.update({c: c for c in self._constants})
""", """        self._constants = list(constants or [])
        self._rules = {**rules}
        for constant in self._constants:
            self._rules[constant] = constant
""")),
    same("sub-same-rules2", (SS, "        self._rules.update({c: c for c in self._constants})\n", "        self._rules.update(zip(self._constants, self._constants))\n")),
    same("sub-same-size", (SS, """        neighbourhood_size = len(next(iter(rules)))
        for key in rules:
            if len(key) != neighbourhood_size:
                raise Exception("all keys in the rule map must be the same length")
        return neighbourhood_size
""", """        sizes = {len(key) for key in rules}
        if len(sizes) != 1:
            raise Exception("all keys in the rule map must be the same length")
        return sizes.pop()
""")),
    same("sub-same-size2", (SS, """        neighbourhood_size = len(next(iter(rules)))
        for key in rules:
            if len(key) != neighbourhood_size:
                raise Exception("all keys in the rule map must be the same length")
        return neighbourhood_size
""", """        lengths = [len(key) for key in rules]
        if any(length != lengths[0] for length in lengths):
            raise Exception("all keys in the rule map must be the same length")
        return lengths[0]
""")),
    same("sub-same-init", (SS, """            for j in range(1, self._neighbourhood_size):
                if (i + j) < n:
                    network.add_edge(i + j, i)
""", """            for source in range(i + 1, min(i + self._neighbourhood_size, n)):
                network.add_edge(source, i)
""")),
    same("sub-same-index", (SS, "        self._last_node_index = len(self._initial_conditions) - 1\n", "        self._next_label = len(self._initial_conditions)\n"),
         (SS, "            self._last_node_index += 1\n            new_node_label = self._last_node_index\n", "            new_node_label = self._next_label\n            self._next_label += 1\n")),
    same("sub-same-list", (SS, "[s for s in axiom]", "list(axiom)")),
    # ---- C26
    bug("rt-range", "C26", (RT, "for i in range(0, k**n):", "for i in range(0, k**n - (k > 2)):")),
    bug("rt-zfill", "C26", (RT, ".zfill(n))", ".zfill(n - 1))")),
    bug("rt-other", "C26", (RT, "    other_states = [x for x in range(0, k) if x != quiescent_state]\n    quiescent_state_count", "    other_states = [x for x in range(0, k)]\n    quiescent_state_count")),
    bug("rt-strong-count", "C26", (RT, "            if cell_state == quiescent_state: quiescent_state_count += 1\n        else:", "        else:")),
    bug("rt-iso-count", "C26", (RT, "                cell_state = table[state_reversed]\n                if cell_state == quiescent_state: quiescent_state_count += 1\n", "                cell_state = table[state_reversed]\n")),
    bug("rt-lambda", "C26", (RT, "    return table, actual_lambda_val, quiescent_state", "    return table, lambda_val, quiescent_state")),
    bug("rt-lambda-q", "C26", (RT, "actual_lambda_val = (k**n - quiescent_state_count) / k**n", "actual_lambda_val = quiescent_state_count / k**n")),
    bug("rt-strong-iso", "C26", (RT, "if strong_quiescence and len(set(state)) == 1:", "if strong_quiescence and not isotropic and len(set(state)) == 1:")),
    bug("rt-order", "C26", (RT, "if isotropic and state_reversed in table:", "if isotropic and state_reversed in table and table[state_reversed] != quiescent_state:")),
    bug("rt-rot", "C26", (RT, "state_reversed = state[::-1]", "state_reversed = state[1:] + state[0]")),
    bug("rt-max", "C26", (RT, "cell_state = random.choice(other_states)", "cell_state = random.randint(1, k)")),
    bug("rt-q0", "C26", (RT, "    if quiescent_state is None:", "    if not quiescent_state:")),
    bug("rtw-strong-dec", "C26", (RT, "                states_to_others = [s for s in states_to_others if len(set(s)) != 1]\n", "                states_to_others = [s for s in states_to_others if s != str(quiescent_state) * len(s)]\n")),
    bug("rtw-strong-inc", "C26", (RT, "                states_to_quiescent = [s for s in states_to_quiescent if len(set(s)) != 1]\n", "                states_to_quiescent = [s for s in states_to_quiescent if int(s[0]) != rule_table[s] or len(set(s)) != 1]\n                states_to_quiescent = states_to_quiescent + [str(quiescent_state) * (2*r + 1)]\n")),
    bug("rtw-iso-dec", "C26", (RT, "                state_to_perturb_reversed = state_to_perturb[::-1]\n                rule_table[state_to_perturb_reversed] = rule_table[state_to_perturb]\n    elif", "                state_to_perturb_reversed = state_to_perturb[::-1]\n                if actual_lambda() > lambda_val:\n                    rule_table[state_to_perturb_reversed] = rule_table[state_to_perturb]\n    elif")),
    bug("rtw-iso-inc", "C26", (RT, "            rule_table[state_to_perturb] = random.choice(other_states)\n            if isotropic:\n", "            rule_table[state_to_perturb] = random.choice(other_states)\n            if isotropic and not strong_quiescence:\n")),
    bug("rtw-stale", "C26", (RT, "    return rule_table, actual_lambda()", "    return rule_table, actual_lambda_val")),
    bug("rtw-target", "C26", (RT, "    return rule_table, actual_lambda()", "    return rule_table, min(actual_lambda(), lambda_val)")),
    bug("rtw-states", "C26", (RT, "            other_states = [x for x in range(0, k) if x != quiescent_state]\n            rule", "            other_states = [x for x in range(1, k + 1) if x != quiescent_state]\n            rule")),
    bug("rtw-size", "C26", (RT, "        return (k**n - transitions_to_quiescent_state) / k**n\n    actual", "        return (k**n - transitions_to_quiescent_state) / (k**n - strong_quiescence)\n    actual")),
    bug("rtw-pop", "C26", (RT, "            rule_table[state_to_perturb] = quiescent_state\n", "            rule_table[state_to_perturb[1:] + state_to_perturb[0]] = quiescent_state\n            rule_table.pop(state_to_perturb, None)\n")),
    bug("rtw-inc-rev", "C26", (RT, "rule_table[state_to_perturb] = random.choice(other_states)", "rule_table[state_to_perturb[1:] + state_to_perturb[0]] = random.choice(other_states)")),
    same("rt-same-dict", (RT, "    for i in range(0, k**n):\n        states.append(np.base_repr(i, k).zfill(n))\n", "    states = [np.base_repr(i, k).zfill(n) for i in range(k**n)]\n")),
    same("rt-same-prod", (RT, "    for i in range(0, k**n):\n        states.append(np.base_repr(i, k).zfill(n))\n", "    import itertools\n    for digits in itertools.product(range(k), repeat=n):\n        states.append(''.join(np.base_repr(d, k) for d in digits))\n")),
    same("rt-same-count", (RT, "    actual_lambda_val = (k**n - quiescent_state_count) / k**n\n", "    actual_lambda_val = (k**n - list(table.values()).count(quiescent_state)) / k**n\n")),
    same("rt-same-count2", (RT, "    actual_lambda_val = (k**n - quiescent_state_count) / k**n\n", "    actual_lambda_val = sum(1 for s in states if table[s] != quiescent_state) / len(states)\n")),
    same("rt-same-elif", (RT, """            state_reversed = state[::-1]
            if isotropic and state_reversed in table:
                cell_state = table[state_reversed]
                if cell_state == quiescent_state: quiescent_state_count += 1
            else:
                if random.random() < (1. - lambda_val):
                    cell_state = quiescent_state
                    quiescent_state_count += 1
                else:
                    cell_state = random.choice(other_states)
        table[state] = cell_state
""", """            mirror = state[::-1]
            if isotropic and mirror in table:
                cell_state = table[mirror]
            else:
                cell_state = _draw(lambda_val, quiescent_state, other_states)
        table[state] = cell_state
    quiescent_state_count = sum(1 for s in table.values() if s == quiescent_state)
"""), (RT, "            if cell_state == quiescent_state: quiescent_state_count += 1\n        else:\n", "        else:\n"),
         (RT, "def table_walk_through(", "def _draw(lambda_val, quiescent_state, other_states):\n    if random.random() >= 1. - lambda_val:\n        return random.choice(other_states)\n    return quiescent_state\n\n\ndef table_walk_through(")),
    same("rt-same-uni", (RT, "len(set(state)) == 1:", "state == state[0] * n:")),
    same("rt-same-np", (RT, "cell_state = random.choice(other_states)", "cell_state = int(np.random.choice(other_states))")),
    same("rt-same-idx", (RT, "cell_state = random.choice(other_states)", "cell_state = other_states[random.randrange(len(other_states))]")),
    same("rtw-same-lambda", (RT, """        n = 2*r + 1
        transitions_to_quiescent_state = list(rule_table.values()).count(quiescent_state)
        return (k**n - transitions_to_quiescent_state) / k**n
""", """        num_states = k ** (2*r + 1)
        quiescent = sum(1 for v in rule_table.values() if v == quiescent_state)
        return (num_states - quiescent) / num_states
""")),
    same("rtw-same-filter", (RT, """            states_to_others = [k for k in rule_table.keys() if rule_table[k] != quiescent_state]
            if strong_quiescence:
                # remove states that are all the same (i.e. '111'); presumably the strong quiescence condition is already
                #  enforced in the incoming rule table, and so these states shouldn't be changed
                states_to_others = [s for s in states_to_others if len(set(s)) != 1]
            if len(states_to_others) == 0:
                break
            state_to_perturb = random.choice(states_to_others)
            rule_table[state_to_perturb] = quiescent_state
            if isotropic:
                state_to_perturb_reversed = state_to_perturb[::-1]
                rule_table[state_to_perturb_reversed] = rule_table[state_to_perturb]
""", """            candidates = [s for s, v in rule_table.items()
                          if v != quiescent_state and not (strong_quiescence and len(set(s)) == 1)]
            if not candidates:
                break
            perturb(random.choice(candidates), quiescent_state)
"""), (RT, "    actual_lambda_val = actual_lambda()\n", "    def perturb(state, value):\n        rule_table[state] = value\n        if isotropic:\n            rule_table[state[::-1]] = value\n    actual_lambda_val = actual_lambda()\n")),
    same("rtw-same-for", (RT, """        attempts = 0
        while actual_lambda() < lambda_val and attempts < len(rule_table):
            attempts += 1
""", """        for _ in range(len(rule_table)):
            if actual_lambda() >= lambda_val:
                break
""")),
    bug("fungal-away", "C29", (FG, "                    new_network.add_edge(j, i)\n\n            elif A_i_j == 0 and A_j_i == 0 and phi_S_i == 1 and phi_S_j == 0:", "                    new_network.add_edge(i, j)\n\n            elif A_i_j == 0 and A_j_i == 0 and phi_S_i == 1 and phi_S_j == 0:")),
    bug("fungal-relink", "C29", (FG, "elif A_i_j == 0 and A_j_i == 0 and phi_S_i == 1 and phi_S_j == 1:", "elif A_i_j == 0 and phi_S_i == 1 and phi_S_j == 1:")),
    bug("fungal-weights", "C29", (FG, "weight=1/new_network.out_degree(i)", "weight=1/max(1, curr_network.out_degree(i))")),
    bug("fungal-degree", "C29", (FG, "weight=1/new_network.out_degree(i)", "weight=1/new_network.degree(i)")),
    bug("fungal-newonly", "C29", (FG, "        for i, j, _ in new_network.edges:\n", "        for i, j, _ in new_network.edges:\n            if curr_network.has_edge(i, j) and curr_network.out_degree(i) > 1: continue\n")),
    bug("fungal-lattice", "C29", (FG, "dim=(1, width, height)", "dim=(1, height, width)")),
    bug("fungal-dead", "C29", (FG, "if ctx.current_activity > 0 else 0  # whether", "if ctx.current_activity >= 0 else 0  # whether")),
    bug("fungal-own", "C29", (FG, "0. if len(ctx.neighbour_labels) > 0 else ctx.current_activity", "0. if len(ctx.neighbour_labels) > 1 else ctx.current_activity")),
    bug("fungal-layer", "C29", (FG, "for nz in np.nonzero(initial_conditions)[0]:", "for nz in np.nonzero(initial_conditions)[0][:1]:")),
    bug("fungal-inplace", "C29 C32", (FG, "new_network = curr_network.copy()", "new_network = curr_network")),
    bug("fungal-weightless", "C29", (FG, '''ctx.connection_states[neighbour][0]["weight"] * ctx.activities[neighbour]''', '''ctx.connection_states[neighbour][0]["weight"] * min(1, ctx.activities[neighbour]) if len(ctx.neighbour_labels) > 2 else ctx.connection_states[neighbour][0]["weight"] * ctx.activities[neighbour]''')),
    same("fungal-sum", (FG, """        neighbour_contribution = 0. if len(ctx.neighbour_labels) > 0 else ctx.current_activity
        for neighbour in ctx.neighbour_labels:
            neighbour_contribution += ctx.connection_states[neighbour][0]["weight"] * ctx.activities[neighbour]
""", """        if ctx.neighbour_labels:
            neighbour_contribution = sum(ctx.connection_states[n][0]["weight"] * ctx.activities[n] for n in ctx.neighbour_labels)
        else:
            neighbour_contribution = ctx.current_activity
""")),
    same("fungal-early", (FG, """            if A_i_j == 0 and A_j_i == 0 and phi_S_i == 0 and phi_S_j == 0:
                pass

            elif A_i_j == 0 and A_j_i == 0 and phi_S_i == 0 and phi_S_j == 1:
                p = 1 / (self._d - curr_network.degree(j))
                if np.random.random() < p:
                    new_network.add_edge(j, i)

            elif A_i_j == 0 and A_j_i == 0 and phi_S_i == 1 and phi_S_j == 0:
                p = 1 / (self._d - curr_network.degree(i))
                if np.random.random() < p:
                    new_network.add_edge(i, j)

            elif A_i_j == 0 and A_j_i == 0 and phi_S_i == 1 and phi_S_j == 1:
                p = 0.5
                if np.random.random() < p:
                    new_network.add_edge(i, j)
                else:
                    new_network.add_edge(j, i)
""", """            if A_i_j or A_j_i:
                continue
            if phi_S_i and phi_S_j:
                source, target = (i, j) if np.random.random() < 0.5 else (j, i)
                new_network.add_edge(source, target)
            elif phi_S_i or phi_S_j:
                source, target = (i, j) if phi_S_i else (j, i)
                if np.random.random() < 1 / (self._d - curr_network.degree(source)):
                    new_network.add_edge(source, target)
""")),
    same("fungal-tuples", (FG, "            self._links.add(frozenset((i, j)))\n", "            self._links.add((min(i, j), max(i, j)))\n")),
    same("fungal-list", (FG, "        self._links = set()\n        for i, j, _ in underlying_network.edges:\n            self._links.add(frozenset((i, j)))\n", "        self._links = sorted({tuple(sorted((i, j))) for i, j, _ in underlying_network.edges})\n")),
    same("fungal-bools", (FG, """            phi_S_i = 1 if ctx.activities[i] > 0 else 0
            phi_S_j = 1 if ctx.activities[j] > 0 else 0
            A_i_j = 1 if curr_network.has_edge(i, j) else 0
            A_j_i = 1 if curr_network.has_edge(j, i) else 0
""", """            phi_S_i, phi_S_j = int(ctx.activities[i] > 0), int(ctx.activities[j] > 0)
            A_i_j, A_j_i = int(curr_network.has_edge(i, j)), int(curr_network.has_edge(j, i))
""")),
    same("fungal-weighthelper", (FG, """        for i, j, _ in new_network.edges:
            new_network.update_edge(i, j, weight=1/new_network.out_degree(i))

        return new_network
""", """        return self._weighted(new_network)

    def _weighted(self, network):
        weights = {node: network.out_degree(node) for node in network.nodes}
        for edge in network.edges:
            network.update_edge(edge[0], edge[1], weight=1 / weights[edge[0]])
        return network
""")),
    same("fungal-layer-comp", (FG, """            self._resource_layer = [0 for i in range(self._num_agents)]
            # provide a single infinite resource at the same location as the initial agent(s)
            for nz in np.nonzero(initial_conditions)[0]:
                self._resource_layer[nz] = 1
""", """            self._resource_layer = [1 if initial_conditions[i] != 0 else 0 for i in range(self._num_agents)]
""")),
    bug("copy-shallow", "C14", (ST, "        return self.decompress(self.compress())\n", "        n = Network()\n        n._network = {k: dict(v) for k, v in self._network.items()}\n        return n\n")),
    bug("copy-incoming", "C14", (ST, "        return self.decompress(self.compress())\n", "        n = Network()\n        n._network = {k: {**v, 'incoming': {i: [dict(e) for e in es] for i, es in v['incoming'].items()}, 'outgoing': list(v['outgoing'])} for k, v in self._network.items()}\n        return n\n")),
    bug("copy-replay", "C14", (ST, "        return self.decompress(self.compress())\n", "        n = Network()\n        for i, j, a in self.edges:\n            n.add_edge(i, j, **a)\n        return n\n")),
    bug("copy-attrs", "C14", (ST, "        return self.decompress(self.compress())\n", "        n = Network()\n        for node in self.nodes:\n            n.add_node(node)\n        for i, j, a in self.edges:\n            n.add_edge(i, j, **a)\n        return n\n")),
    bug("state-truthy", "C14", (ST, "        if self._activities is not None:\n            return", "        if self._activities:\n            return")),
    bug("state-truthy2", "C14", (ST, "        if a is not None:\n", "        if a:\n")),
    bug("state-net-truthy", "C14", (ST, "        if n is not None:\n            self._network = n.compress()", "        if n:\n            self._network = n.compress()")),
    bug("state-halfcompressed", "C14", (ST, "self._activities = _Compressor.compress(a) if self._compression else a", "self._activities = _Compressor.compress(a) if self._compression and len(a) else a")),
    bug("gc-nofinally", "C14", (ST, """        try:
            return msgpack.unpackb(packed, strict_map_key=False)
        finally:
            if gc_was_enabled:
                gc.enable()""", """        obj = msgpack.unpackb(packed, strict_map_key=False)
        if gc_was_enabled:
            gc.enable()
        return obj""")),
    bug("gc-always", "C14", (ST, "            if gc_was_enabled:\n                gc.enable()", "            gc.enable()")),
    bug("gc-except", "C14", (ST, """        finally:
            if gc_was_enabled:
                gc.enable()""", """        except KeyError:
            if gc_was_enabled:
                gc.enable()
            raise
        else:
            if gc_was_enabled:
                gc.enable()""")),
    bug("gc-order", "C14", (ST, "        gc_was_enabled = gc.isenabled()\n        gc.disable()\n", "        gc.disable()\n        gc_was_enabled = gc.isenabled()\n")),
    bug("strict-keys", "C14", (ST, "msgpack.unpackb(packed, strict_map_key=False)", "msgpack.unpackb(packed)")),
    bug("cached-copy", "C14", (ST, "            return _Compressor.decompress(self._activities) if self._compression else self._activities", "            if self._compression:\n                self._activities, self._compression = _Compressor.decompress(self._activities), False\n            return self._activities")),
    same("copy-deep", (ST, "        return self.decompress(self.compress())\n", "        import copy\n        n = Network()\n        n._network = copy.deepcopy(self._network)\n        return n\n")),
    same("copy-cls", (ST, "        return self.decompress(self.compress())\n", "        packed = self.compress()\n        return Network.decompress(packed)\n")),
    same("gc-early", (ST, """        gc_was_enabled = gc.isenabled()
        gc.disable()
        try:
            return msgpack.unpackb(packed, strict_map_key=False)
        finally:
            if gc_was_enabled:
                gc.enable()""", """        if not gc.isenabled():
            return msgpack.unpackb(packed, strict_map_key=False)
        gc.disable()
        try:
            obj = msgpack.unpackb(packed, strict_map_key=False)
        finally:
            gc.enable()
        return obj""")),
    same("gc-nogc", (ST, """        gc_was_enabled = gc.isenabled()
        gc.disable()
        try:
            return msgpack.unpackb(packed, strict_map_key=False)
        finally:
            if gc_was_enabled:
                gc.enable()""", "        return msgpack.unpackb(packed, strict_map_key=False)")),
    same("gc-context", (ST, """        gc_was_enabled = gc.isenabled()
        gc.disable()
        try:
            return msgpack.unpackb(packed, strict_map_key=False)
        finally:
            if gc_was_enabled:
                gc.enable()""", """        was_enabled = gc.isenabled()
        gc.disable()
        try:
            obj = msgpack.unpackb(packed, strict_map_key=False)
        except Exception:
            if was_enabled:
                gc.enable()
            raise
        if was_enabled:
            gc.enable()
        return obj""")),
    same("state-helper", (ST, "            self._activities = _Compressor.compress(a) if self._compression else a", "            packed = _Compressor.compress(a) if self._compression else None\n            self._activities = a if packed is None else packed")),
    bug("nx-isolated", "C15", (ST, "            G.add_node(node, **atts)\n        for i, j, data", "            if atts: G.add_node(node, **atts)\n        for i, j, data")),
    bug("nx-direction", "C15", (ST, "            G.add_edge(i, j, **data)", "            G.add_edge(j, i, **data)")),
    bug("nx-di", "C15", (ST, "        G = nx.MultiDiGraph()", "        G = nx.DiGraph()")),
    bug("nx-book", "C15", (ST, "                if key not in self._new_node():", "                if key not in ('in', 'out', 'incoming'):")),
    bug("nx-nodata", "C15", (ST, "            network.add_edge(edge[0], edge[1], **edge[2])", "            network.add_edge(edge[0], edge[1], **({'weight': edge[2]['weight']} if 'weight' in edge[2] else {}))")),
    bug("nx-nodeattrs", "C15", (ST, "            network.add_node(node[0], **node[1])", "            network.add_node(node[0])")),
    bug("nx-dup", "C15", (ST, "            network.add_edge(edge[0], edge[1], **edge[2])", "            if not network.has_edge(edge[0], edge[1]):\n                network.add_edge(edge[0], edge[1], **edge[2])")),
    bug("mat-transposed", "C15", (ST, "            i = nodelist.index(n1)\n            j = nodelist.index(n2)", "            i = nodelist.index(n2)\n            j = nodelist.index(n1)")),
    bug("mat-nodelist", "C15", (ST, "        if not nodelist:\n            nodelist = list(self.nodes)", "        nodelist = list(self.nodes)")),
    bug("mat-sum", "C15", (ST, "                M[i][j] += w\n", "                M[i][j] = w\n")),
    bug("mat-default", "C15", (ST, "w = atts[weight] if weight in atts else 1", "w = atts.get(weight) or 1")),
    bug("mat-shared", "C15", (ST, "M = [[0]*num_nodes for _ in range(num_nodes)]", "M = [[0]*num_nodes]*num_nodes")),
    same("mat-index", (ST, """        for n1, n2, atts in self.edges:
            w = atts[weight] if weight in atts else 1
            i = nodelist.index(n1)
            j = nodelist.index(n2)
            if sum_multiedges:
                M[i][j] += w
            else:
                M[i][j] = w
""", """        position = {label: k for k, label in enumerate(nodelist)}
        for n1, n2, atts in self.edges:
            row, col = position[n1], position[n2]
            w = atts.get(weight, 1)
            M[row][col] = M[row][col] + w if sum_multiedges else w
""")),
    same("nx-comp", (ST, """            atts = {}
            for key in self._network[node]:
                if key not in self._new_node():
                    atts[key] = self._network[node][key]
            G.add_node(node, **atts)
""", """            bookkeeping = self._new_node()
            G.add_node(node, **{k: v for k, v in self._network[node].items() if k not in bookkeeping})
""")),
    same("nx-bulk", (ST, """        for i, j, data in self.edges:
            G.add_edge(i, j, **data)
        return G
""", """        G.add_edges_from((i, j, data) for i, j, data in self.edges)
        return G
""")),
    same("nx-unpack", (ST, """        for node in G.nodes(data=True):
            network.add_node(node[0], **node[1])
        for edge in G.edges(data=True):
            network.add_edge(edge[0], edge[1], **edge[2])
""", """        for label, attributes in G.nodes(data=True):
            network.add_node(label, **attributes)
        for source, target, attributes in G.edges(data=True):
            network.add_edge(source, target, **attributes)
""")),
bug("wpm-rollback", "C25", (WP, "                    for added in added_symbols:\n                        del symbol_bindings[added]\n", "")),
bug("wpm-rollback2", "C25", (WP, "                    for added in added_symbols:", "                    for added in added_symbols[:1]:")),
bug("wpm-len", "C25", (WP, "if len(rule) != len(relation):", "if len(rule) > len(relation):")),
bug("wpm-drop", "C25", (WP, "            unmatched_relations.extend(partially_matched)\n            partially_matched = []\n\n        new", "            unmatched_relations.extend(partially_matched[1:])\n            partially_matched = []\n\n        new")),
bug("wpm-bind", "C25", (WP, "        while scanning:\n\n            # bind nodes to symbols\n            symbol_bindings = {}\n", "        symbol_bindings = {}\n        while scanning:\n")),
bug("wpm-share", "C25", (WP, "                    if symbol not in bindings:\n                        self.last_node += 1\n                        bindings[symbol] = self.last_node\n                    new_edge.append(bindings[symbol])", "                    if symbol not in bindings:\n                        self.last_node += 1\n                        new_edge.append(self.last_node)\n                        continue\n                    new_edge.append(bindings[symbol])")),
bug("wpm-last", "C25", (WP, "                if node > last_node:\n                    last_node = node", "                last_node = node")),
bug("wpm-last2", "C25", (WP, "        self.network, self.last_node = self._init_network_and_conditions(new_config)", "        self.network, _ = self._init_network_and_conditions(new_config)\n        self.last_node = len(self.network.nodes)")),
bug("wpm-order", "C25", (WP, "sorted(edges, key=int)", "sorted(edges)")),
bug("wpm-first", "C25", (WP, "        new_config.extend(relations)\n        new_config.extend(unmatched_relations)\n", "        new_config.extend(unmatched_relations)\n        new_config.extend(relations)\n")),
bug("wpm-unary", "C25", (WP, 'if "unary" in connection:', 'if from_node == to_node and "hyperedge_index" not in connection and len(in_edges) == 1:')),
bug("wpm-inplace", "C25", (WP, "        return network, last_node\n", "        config.clear() if isinstance(config, list) and len(config) > 4 else None\n        return network, last_node\n")),
bug("wpm-state", "C25", (WP, "        relations = self.network_to_config(cctx.network)\n", "        relations = self.network_to_config(self.network)\n        self.rules['in'] = list(reversed(self.rules['in']))\n")),
same("wpm-same-extend", (WP, "        new_config = []\n        # add the relations that did not match the rules\n        new_config.extend(relations)\n        new_config.extend(unmatched_relations)\n", "        new_config = relations + unmatched_relations\n")),
same("wpm-same-match", (WP, "        added_symbols = []\n        for i, symbol in enumerate(rule):\n            if symbol in symbol_bindings:\n                if relation[i] != symbol_bindings[symbol]:\n                    #  rule does not match this relation\n                    for added in added_symbols:\n                        del symbol_bindings[added]\n                    return False\n                else:\n                    continue\n\n            symbol_bindings[symbol] = relation[i]\n            added_symbols.append(symbol)\n\n        return True", "        found = dict(symbol_bindings)\n        for symbol, node in zip(rule, relation):\n            if found.setdefault(symbol, node) != node:\n                return False\n        symbol_bindings.update(found)\n        return True")),
same("wpm-same-fresh", (WP, "                new_edge = []\n                for symbol in rule_out:\n                    if symbol not in bindings:\n                        self.last_node += 1\n                        bindings[symbol] = self.last_node\n                    new_edge.append(bindings[symbol])\n                new_config.append(tuple(new_edge))\n", "                for symbol in rule_out:\n                    if symbol not in bindings:\n                        self.last_node += 1\n                        bindings[symbol] = self.last_node\n                new_config.append(tuple(bindings[symbol] for symbol in rule_out))\n")),
same("wpm-same-index", (WP, "                for relation in list(relations):  # iterate over a copy of the list so that we can remove from the original\n                    if self._matches(rule, relation, symbol_bindings):\n                       partially_matched.append(relation)\n                       relations.remove(relation)\n", "                for i, relation in enumerate(relations):\n                    if self._matches(rule, relation, symbol_bindings):\n                       partially_matched.append(relations.pop(i))\n")),
same("wpm-same-merge", (WP, "                merged = [0] * (len(parts) + 1)\n                for part in parts:\n                    edge = part[0]\n                    index = part[1]\n                    merged[index] = edge[0]\n                    if (index + 2) == len(merged):\n                        merged[-1] = edge[1]\n                merged_hyperedges[edge_label] = tuple(merged)\n", "                parts.sort(key=lambda p: p[1])\n                merged_hyperedges[edge_label] = tuple([p[0][0] for p in parts] + [parts[-1][0][1]])\n")),
same("wpm-same-default", (WP, "                        if edge_label not in hyperedges:\n                            hyperedges[edge_label] = []\n                        hyperedges[edge_label].append(", "                        hyperedges.setdefault(edge_label, []).append(")),
same("wpm-same-max", (WP, "                if node > last_node:\n                    last_node = node", "                last_node = max(last_node, node)")),
same("wpm-same-pairs", (WP, "            prev = None\n            edge_label = str(c+1)\n            is_hyperedge = len(relation) > 2\n            next_edge_num = 0\n            for node in relation:\n                if prev is not None:\n                    prev_state = {\"label\": edge_label}\n                    if is_hyperedge:\n                        prev_state[\"hyperedge_index\"] = next_edge_num\n                    network.add_edge(prev, node, **prev_state)\n                    next_edge_num += 1\n                prev = node\n                if node > last_node:\n                    last_node = node\n", "            edge_label = str(c+1)\n            for i, (a, b) in enumerate(zip(relation, relation[1:])):\n                extra = {\"hyperedge_index\": i} if len(relation) > 2 else {}\n                network.add_edge(a, b, label=edge_label, **extra)\n            last_node = max([last_node, *relation])\n")),
]
