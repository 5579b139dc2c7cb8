from cases_rules import bug, same

S = "state.py"
ADD = '''        if i not in self._network[j]["incoming"]:
            self._network[j]["incoming"][i] = []
        self._network[j]["incoming"][i].append(attr)
'''
REMN = '''        for i, v in self._network[node_label]["incoming"].items():
            self._decrement_out_degree(i, n=len(v))
            self._remove_outgoing(i, node_label)
        for j in self._network[node_label]["outgoing"]:
            self._decrement_in_degree(j)
            self._remove_incoming(node_label, j)
'''
REME = '''        n = len(self._network[j]["incoming"][i])
        self._remove_outgoing(i, j)
        self._decrement_out_degree(i, n=n)
        self._decrement_in_degree(j, n=n)
        self._remove_incoming(i, j)
'''
UPD = '''            for edge in self._network[j]["incoming"][i]:
                edge.update(attr)
'''
OUT = '''        self._network[i]["outgoing"] = [x for x in self._network[i]["outgoing"] if x != j]'''
ROT = '''            self._rotation_system = {label: [i for i in incoming_nodes if i != node_label]
                                     for label, incoming_nodes in self._rotation_system.items() if label != node_label}'''

CASES = [
    # ---- additions
    bug("net-add-swap", "C13", (S, ADD, ADD.replace("[j]", "[q]").replace("[i]", "[j]").replace("[q]", "[i]").replace("if i not", "if j not"))),
    bug("net-add-overwrite", "C13", (S, ADD, '        self._network[j]["incoming"][i] = [attr]\n')),
    bug("net-add-degree", "C12", (S, "        self._increment_in_degree(j)\n", "        if i != j:\n            self._increment_in_degree(j)\n")),
    bug("net-add-out", "C12", (S, "        self._add_outgoing(i, j)\n", "        if j not in self._network[i][\"outgoing\"]:\n            self._add_outgoing(i, j)\n")),
    bug("net-add-self", "C12", (S, "        self._init_node(j)\n        if i not", "        if i == j:\n            return\n        self._init_node(j)\n        if i not")),
    bug("net-bidir-share", "C13", (S, "    def add_edge_bidir(", "    def _put(self, i, j, attr):\n        self._init_node(i)\n        self._init_node(j)\n" + ADD.replace("attr", "attr")
        + "        self._increment_in_degree(j)\n        self._increment_out_degree(i)\n        self._add_outgoing(i, j)\n\n    def add_edge_bidir("),
        (S, "        self.add_edge(i, j, **attr)\n        self.add_edge(j, i, **attr)\n", "        self._put(i, j, attr)\n        self._put(j, i, attr)\n")),
    same("net-bidir-put", (S, "    def add_edge_bidir(", "    def _put(self, i, j, attr):\n        self._init_node(i)\n        self._init_node(j)\n" + ADD.replace("attr", "attr")
        + "        self._increment_in_degree(j)\n        self._increment_out_degree(i)\n        self._add_outgoing(i, j)\n\n    def add_edge_bidir("),
        (S, "        self.add_edge(i, j, **attr)\n        self.add_edge(j, i, **attr)\n", "        self._put(i, j, attr)\n        self._put(j, i, dict(attr))\n")),
    bug("net-bidir-self", "C12", (S, "        self.add_edge(j, i, **attr)\n", "        if i != j:\n            self.add_edge(j, i, **attr)\n")),
    same("net-add-setdefault", (S, ADD, '        self._network[j]["incoming"].setdefault(i, []).append(attr)\n')),
    same("net-add-local", (S, ADD, '        incoming = self._network[j]["incoming"]\n        if i in incoming:\n            incoming[i].append(attr)\n        else:\n            incoming[i] = [attr]\n')),
    same("net-add-order", (S, "        self._increment_in_degree(j)\n        self._increment_out_degree(i)\n        self._add_outgoing(i, j)\n",
                           "        self._add_outgoing(i, j)\n        self._increment_out_degree(i)\n        self._increment_in_degree(j)\n")),
    same("net-add-for", (S, "        self._init_node(i)\n        self._init_node(j)\n        if", "        for label in (i, j):\n            self._init_node(label)\n        if")),
    same("net-bidir-for", (S, "        self.add_edge(i, j, **attr)\n        self.add_edge(j, i, **attr)\n",
                           "        for a, b in ((i, j), (j, i)):\n            self.add_edge(a, b, **attr)\n")),
    same("net-init-setdefault", (S, '        if node_label not in self._network:\n            self._network[node_label] = self._new_node()\n',
                                 '        self._network.setdefault(node_label, self._new_node())\n')),
    bug("net-new-shared", "C12", (S, "self._network = {i: self._new_node() for i in range(n)}", "self._network = dict.fromkeys(range(n), self._new_node())")),
    same("net-new-loop", (S, "        self._network = {i: self._new_node() for i in range(n)}\n",
                          "        self._network = {}\n        for i in range(n):\n            self._init_node(i)\n")),
    bug("net-addnode-reset", "C13", (S, "        self._init_node(node_label)\n        self._network[node_label].update(attr)",
                                     "        self._network[node_label] = self._new_node()\n        self._network[node_label].update(attr)")),
    # ---- updates
    bug("net-upd-first", "C13", (S, UPD, UPD.replace("[i]:", "[i][:1]:"))),
    bug("net-upd-both", "C13", (S, UPD, UPD + '            for edge in self._network[i]["incoming"].get(j, ()):\n                edge.update(attr)\n')),
    bug("net-upd-replace", "C13", (S, UPD, '            self._network[j]["incoming"][i] = [dict(attr) for _ in self._network[j]["incoming"][i]]\n')),
    bug("net-upd-idx", "C13", (S, '[i][k].update(attr)', '[i][0].update(attr)')),
    bug("net-upd-missing", "C13", (S, 'if j not in self._network or i not in self._network[j]["incoming"]:', 'if j not in self._network:'),
        (S, UPD, UPD.replace("[i]:", ".get(i, ()):"))),
    same("net-upd-range", (S, UPD, '            edges = self._network[j]["incoming"][i]\n            for k in range(len(edges)):\n                edges[k].update(attr)\n')),
    same("net-upd-keys", (S, UPD, '            for edge in self._network[j]["incoming"][i]:\n                for name, value in attr.items():\n                    edge[name] = value\n')),
    # ---- removals
    bug("net-reme-n", "C12", (S, "        self._decrement_in_degree(j, n=n)\n", "        self._decrement_in_degree(j)\n")),
    bug("net-reme-one", "C12", (S, OUT, '        self._network[i]["outgoing"].remove(j)')),
    bug("net-reme-dir", "C12", (S, "        self._remove_incoming(i, j)\n\n    @property", "        self._remove_incoming(j, i)\n\n    @property")),
    bug("net-remn-out", "C12", (S, "            self._decrement_out_degree(i, n=len(v))", "            self._decrement_out_degree(i)")),
    same("net-remn-in", (S, '            self._decrement_in_degree(j)\n            self._remove_incoming(node_label, j)\n', '            if node_label != j:\n                self._decrement_in_degree(j)\n                self._remove_incoming(node_label, j)\n')),
    bug("net-remn-set", "C12", (S, '        for j in self._network[node_label]["outgoing"]:', '        for j in set(self._network[node_label]["outgoing"]):')),
    bug("net-remn-rec", "C12", (S, "            self._remove_outgoing(i, node_label)\n", "")),
    bug("net-rot", "C13", (S, ROT, ROT.replace("i for i in incoming_nodes if i != node_label", "i for i in incoming_nodes"))),
    bug("net-rot2", "C13", (S, ROT, ROT.replace(" if label != node_label", ""))),
    same("net-remn-names", (S, REMN, REMN.replace("i, v in", "source, edges in").replace("(i, n", "(source, n").replace("(v)", "(edges)").replace("(i, node", "(source, node"))),
    same("net-remn-local", (S, REMN, '''        node = self._network[node_label]
        for i in node["incoming"]:
            self._decrement_out_degree(i, n=len(node["incoming"][i]))
            self._remove_outgoing(i, node_label)
        for j in node["outgoing"]:
            self._decrement_in_degree(j)
            self._remove_incoming(node_label, j)
''')),
    same("net-reme-order", (S, REME, '''        n = len(self._network[j]["incoming"][i])
        self._remove_incoming(i, j)
        self._decrement_in_degree(j, n=n)
        self._decrement_out_degree(i, n=n)
        self._remove_outgoing(i, j)
''')),
    same("net-out-ne", (S, OUT, '        kept = []\n        for x in self._network[i]["outgoing"]:\n            if x != j:\n                kept.append(x)\n        self._network[i]["outgoing"] = kept')),
    same("net-pop", (S, '        if i in self._network[j]["incoming"]:\n            del self._network[j]["incoming"][i]', '        self._network[j]["incoming"].pop(i, None)')),
    same("net-rot-loop", (S, ROT, '''            left = {}
            for label, incoming_nodes in self._rotation_system.items():
                if label != node_label:
                    left[label] = [i for i in incoming_nodes if i != node_label]
            self._rotation_system = left''')),
]
