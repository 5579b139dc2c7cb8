from cases_rules import bug, same

ADJ, NW = "topology/adjacency.py", "topology/networks.py"
ROT = "    shifted.rotate(center - index_of(nodes, node_to_center_on))\n    return list(shifted)"
CA1 = '''        for w, row in enumerate(adjacency_matrix):
            for c, _ in enumerate(row):
                if w == c:
                    adjacency_matrix[w][c] = 1.
                    for i in range(r):
                        adjacency_matrix[w][c - (1 + i)] = 1.
                        adjacency_matrix[w][(c + (1 + i)) % len(adjacency_matrix[w])] = 1.
'''
PTS = '''                for point in neighbourhood_points:
                    x = point[0] if point[0] == -1 else point[0] % len(lattice)
                    y = point[1] if point[1] == -1 else point[1] % len(lattice[a])
                    adjacency_matrix[adjacency_row_num][lattice[x][y]] = 1.
'''
CASES = [
    bug("ca-right", "C17", (ADJ, "(c + (1 + i)) % len", "min(c + (1 + i), n - 1) % len")),
    bug("ca-left", "C17", (ADJ, "adjacency_matrix[w][c - (1 + i)] = 1.", "adjacency_matrix[w][max(c - (1 + i), -1)] = 1.")),
    bug("ca-radius", "C17", (ADJ, "for i in range(r):\n                        adjacency_matrix[w][c - ", "for i in range(min(r, 2)):\n                        adjacency_matrix[w][c - ")),
    bug("ca-self", "C17", (ADJ, "adjacency_matrix[w][c] = 1.\n", "adjacency_matrix[w][c] = 1. if r == 1 else 0.\n")),
    bug("ca2-modrows", "C17", (ADJ, "point[1] % len(lattice[a])", "point[1] % len(lattice)")),
    bug("ca2-neg", "C17", (ADJ, "x = point[0] if point[0] == -1 else point[0] % len(lattice)", "x = max(point[0], -1) % len(lattice)")),
    bug("ca2-vn", "C17", (ADJ, "np.abs(a_i - a_o) + np.abs(b_i - b_o) <= radius\n        elif", "np.abs(a_i - a_o) + np.abs(b_i - b_o) < radius + (radius < 2)\n        elif")),
    bug("ca2-moore-diag", "C17", (ADJ, "np.abs(a_i - a_o) <= radius and np.abs(b_i - b_o) <= radius", "np.abs(a_i - a_o) <= radius and np.abs(b_i - b_o) <= radius and (radius == 1 or np.abs(a_i - a_o) + np.abs(b_i - b_o) < 2 * radius)")),
    bug("ca2-range", "C17", (ADJ, "for y in range(b-r, b+r+1)] for x in range(a-r, a+r+1)", "for y in range(b-r, b+r+1)] for x in range(max(a-r, -1), a+r+1)")),
    bug("ca2-rows-cols", "C17", (ADJ, ".reshape((rows, cols))", ".reshape((cols, rows))")),
    bug("rot-center", "C17", (NW, "center = len(nodes) // 2", "center = (len(nodes) - 1) // 2 if len(nodes) < 6 else len(nodes) // 2 - 1")),
    bug("rot-index", "C17", (NW, ROT, "    shifted.rotate(center - index_of(list(reversed(nodes)), node_to_center_on))\n    return list(shifted)")),
    bug("rot-sign", "C17", (NW, "center - index_of(nodes, node_to_center_on)", "index_of(nodes, node_to_center_on) - center")),
    bug("rot-set", "C17", (NW, "deque(sorted(nodes))", "deque(sorted(set(nodes) | {node_to_center_on}, reverse=len(nodes) > 9))")),
    bug("ca-r-dropped", "C17", (NW, "adjacency.cellular_automaton2d(rows, cols, r, neighbourhood,", "adjacency.cellular_automaton2d(rows, cols, min(r, cols // 3), neighbourhood,")),
    bug("ca-swapped", "C17", (NW, "adjacency.cellular_automaton2d(rows, cols, r, neighbourhood,", "adjacency.cellular_automaton2d(cols, rows, r, neighbourhood,")),
    bug("ca-ordered-default", "C17", (NW, "def cellular_automaton2d(rows, cols, r=1, neighbourhood=\"Moore\", ordered=True", "def cellular_automaton2d(rows, cols, r=1, neighbourhood=\"Moore\", ordered=False")),
    same("ca-same-mod", (ADJ, CA1, '''        for w in range(n):
            row = adjacency_matrix[w]
            for d in range(-r, r + 1):
                row[(w + d) % n] = 1.
''')),
    same("ca-same-np", (ADJ, "    adjacency_matrix = [[0. for j in range(n)] for i in range(n)]\n    if boundary == \"periodic\":\n        for w", "    adjacency_matrix = np.zeros((n, n)).tolist()\n    if boundary == \"periodic\":\n        for w")),
    same("ca-same-self", (ADJ, CA1, '''        for w in range(n):
            for c in range(n):
                distance = min((w - c) % n, (c - w) % n)
                if distance <= r:
                    adjacency_matrix[w][c] = 1.
''')),
    same("ca2-same-mod", (ADJ, PTS, '''                for x, y in neighbourhood_points:
                    adjacency_matrix[adjacency_row_num][lattice[x % rows][y % cols]] = 1.
''')),
    same("ca2-same-arith", (ADJ, PTS, '''                for point in neighbourhood_points:
                    target = (point[0] % rows) * cols + point[1] % cols
                    adjacency_matrix[a * cols + b][target] = 1.
''')),
    same("ca2-same-points", (ADJ, '''    neighbourhood_points = [[(x, y) for y in range(b-r, b+r+1)] for x in range(a-r, a+r+1)]
    filtered = [[p for p in row if criteria(p[0], p[1], a, b, r, rownum)] for row in neighbourhood_points]
    return [item for sublist in filtered for item in sublist]  # flatten the list of lists''', '''    points = []
    for x in range(a - r, a + r + 1):
        for y in range(b - r, b + r + 1):
            if criteria(x, y, a, b, r, rownum):
                points.append((x, y))
    return points''')),
    same("ca2-same-np", (ADJ, "        lattice = np.array(range(n)).reshape((rows, cols)).tolist()", "        lattice = [[row * cols + col for col in range(cols)] for row in range(rows)]")),
    same("ca2-same-arange", (ADJ, "        lattice = np.array(range(n)).reshape((rows, cols)).tolist()", "        lattice = np.arange(n).reshape(rows, cols).tolist()")),
    same("ca2-same-helper", (ADJ, "criteria = lambda a_i, b_i, a_o, b_o, radius, rownum: np.abs(a_i - a_o) <= radius and np.abs(b_i - b_o) <= radius", "criteria = lambda a_i, b_i, a_o, b_o, radius, rownum: max(abs(a_i - a_o), abs(b_i - b_o)) <= radius")),
    same("rot-same-slice", (NW, '''    shifted = deque(sorted(nodes))

    def index_of(arr, val):
        return np.where(arr == val)[0][0] if type(arr) == np.ndarray else arr.index(val)
    shifted.rotate(center - index_of(nodes, node_to_center_on))
    return list(shifted)''', '''    ordered = sorted(nodes)
    k = (center - nodes.index(node_to_center_on)) % len(nodes)
    return ordered[-k:] + ordered[:-k] if k else ordered''')),
    same("rot-same-loop", (NW, '''        network.rotation_system = {node: _shift_to_center(list(network.in_edges(node).keys()), node)
                                   for node in network.nodes}
    return network


def cellular_automaton2d''', '''        rotations = {}
        for node in network.nodes:
            rotations[node] = _shift_to_center(sorted(network.in_edges(node)), node)
        network.rotation_system = rotations
    return network


def cellular_automaton2d''')),
    same("adj-same-row", (NW, '''        for j, val in enumerate(row):
            if val != 0:
                network.add_edge(i, j, weight=val)
''', '''        for j in range(len(row)):
            if row[j] == 0:
                continue
            network.add_edge(i, j, weight=row[j])
''')),
    # C16
    bug("hex-odd", "C17", (ADJ, "ex = (b_o - b_i) < radius", "ex = (b_o - b_i) <= radius")),
    bug("hex-rownum", "C17", (ADJ, "        rownum = 0\n", "        rownum = 1\n")),
    bug("lat-oneway", "C16", (NW, "        network.add_edge(edge[1], edge[0])\n        network.add_edge(edge[0], edge[1])", "        network.add_edge(edge[1], edge[0])\n        if edge[1] - edge[0] < 3: network.add_edge(edge[0], edge[1])")),
    bug("lat-isolated", "C16", (NW, "    for node in G.nodes:\n        network.add_node(node)\n        if self_loops:", "    for node in G.nodes:\n        if self_loops:")),
    bug("lat-loop1", "C16", (NW, "        if edge[0] == edge[1]:\n", "        if edge[0] == edge[1] == first_label and not periodic:\n")),
    bug("lat-first", "C16", (NW, "        network.add_node(node)\n        if self_loops:\n            network.add_edge(node, node)", "        network.add_node(node)\n    if self_loops:\n        for node in range(len(network)):\n            network.add_edge(node, node)")),
    bug("lat-twice", "C16", (NW, "        if self_loops:\n            network.add_edge(node, node)", "        if self_loops:\n            network.add_edge_bidir(node, node)")),
    same("lat-bidir", (NW, "        network.add_edge(edge[1], edge[0])\n        network.add_edge(edge[0], edge[1])", "        network.add_edge_bidir(*edge)")),
    same("lat-nodes-first", (NW, "    network = ntm.Network()\n    for edge in G.edges:\n", "    network = ntm.Network()\n    for label in G:\n        network.add_node(label)\n    for edge in G.edges():\n")),
    same("lat-continue", (NW, """        if edge[0] == edge[1]:
            # a periodic dimension of size 1 gives a self-loop
            continue
        network.add_edge(edge[1], edge[0])
        network.add_edge(edge[0], edge[1])""", """        source, target = edge
        if source != target:
            for i, j in ((source, target), (target, source)):
                network.add_edge(i, j)""")),
    same("lat-helper", (NW, "    # nodes without any connections are also part of the network\n    for node in G.nodes:\n        network.add_node(node)\n        if self_loops:\n            network.add_edge(node, node)\n    return network\n\n\ndef disconnected", "    for node in list(G.nodes()):\n        _with_node(network, node, self_loops)\n    return network\n\n\ndef _with_node(network, node, loop):\n    network.add_node(node)\n    if not loop:\n        return\n    network.add_edge(node, node)\n\n\ndef disconnected")),
    bug("disc-int", "C16", (NW, "ntm.Network(n=nodes) if isinstance(nodes, int)", "ntm.Network(n=nodes) if isinstance(nodes, int) and nodes > 1")),
    bug("disc-array", "C16", (NW, "isinstance(nodes, (list, np.ndarray))", "isinstance(nodes, list)")),
    bug("disc-skip", "C16", (NW, "[network.add_node(n) for n in nodes]", "[network.add_node(n) for n in nodes if n]")),
    same("disc-loop", (NW, "    network = ntm.Network(n=nodes) if isinstance(nodes, int) else ntm.Network()\n    if isinstance(nodes, (list, np.ndarray)):\n        [network.add_node(n) for n in nodes]\n", "    network = ntm.Network()\n    labels = range(nodes) if isinstance(nodes, int) else nodes\n    for label in labels:\n        network.add_node(label)\n")),
    bug("adj-transposed", "C16", (NW, "network.add_edge(i, j, weight=val)", "network.add_edge(j, i, weight=val)")),
    bug("adj-positive", "C16", (NW, "            if val != 0:\n", "            if val > 0:\n")),
    bug("adj-isolated", "C16", (NW, "    for i in range(len(adj)):\n        network.add_node(i)\n", "")),
    bug("adj-last", "C16", (NW, "    for i in range(len(adj)):\n        network.add_node(i)\n", "    for i in range(len(adj) - 1):\n        network.add_node(i)\n")),
    same("adj-index", (NW, """    for i, row in enumerate(adj):
        for j, val in enumerate(row):
            if val != 0:
                network.add_edge(i, j, weight=val)
    # nodes without any connections are also part of the network
    for i in range(len(adj)):
        network.add_node(i)
""", """    for i in range(len(adj)):
        network.add_node(i)
        for j in range(len(adj[i])):
            val = adj[i][j]
            if val == 0:
                continue
            network.add_edge(i, j, weight=val)
""")),
    same("adj-n", (NW, "    network = ntm.Network()\n    for i, row in enumerate(adj):\n", "    network = ntm.Network(n=len(adj))\n    for i, row in enumerate(adj):\n"), (NW, "    for i in range(len(adj)):\n        network.add_node(i)\n", "")),
    bug("ws-n", "C16", (NW, "nx.watts_strogatz_graph(n, k, p, seed)", "nx.watts_strogatz_graph(n, k, p)")),
    bug("ws-swap", "C16", (NW, "    G = nx.watts_strogatz_graph(n, k, p, seed)\n    adjacency = nx.adjacency_matrix(G).todense().tolist()\n    return from_adjacency_matrix(adjacency)", "    G = nx.watts_strogatz_graph(n, k, p, seed)\n    adjacency = nx.adjacency_matrix(G).todense().tolist()\n    return from_adjacency_matrix([[v * (i <= j or i - j < 2) for j, v in enumerate(r)] for i, r in enumerate(adjacency)])")),
    same("ws-toarray", (NW, "    G = nx.watts_strogatz_graph(n, k, p, seed)\n    adjacency = nx.adjacency_matrix(G).todense().tolist()", "    adjacency = nx.adjacency_matrix(nx.watts_strogatz_graph(n, k, p, seed=seed)).toarray().tolist()")),
    bug("bip-oneway", "C16", (NW, "                network.add_edge_bidir(node1, node2, **attrs)", "                network.add_edge(node1, node2, **attrs)\n                network.add_edge(node2, node1)")),
    bug("bip-empty", "C16", (NW, "    for node in [*set1, *set2]:\n", "    for node in set1:\n")),
    bug("bip-attr", "C16", (NW, "attrs = edge_attributes[node1][node2]", "attrs = edge_attributes[set1[0]][node2]")),
    same("bip-merge", (NW, """            if edge_attributes is None:
                network.add_edge_bidir(node1, node2)
            else:
                attrs = edge_attributes[node1][node2]
                network.add_edge_bidir(node1, node2, **attrs)
""", """            attrs = {} if edge_attributes is None else edge_attributes[node1][node2]
            network.add_edge(node1, node2, **attrs)
            network.add_edge(node2, node1, **attrs)
""")),
    same("bip-product", (NW, """    for node1 in set1:
        for node2 in set2:
            if edge_attributes is None:
                network.add_edge_bidir(node1, node2)
            else:
                attrs = edge_attributes[node1][node2]
                network.add_edge_bidir(node1, node2, **attrs)
""", """    import itertools
    for node1, node2 in itertools.product(set1, set2):
        attrs = {}
        if edge_attributes is not None:
            attrs = edge_attributes[node1][node2]
        network.add_edge_bidir(node1, node2, **attrs)
""")),
    bug("bound-any", "C16", (ADJ, '    if boundary == "periodic":\n        for w', '    if boundary.startswith("periodic"):\n        for w')),
    bug("hood-any", "C16", (ADJ, "        else:\n            raise Exception(\"neighbourhood type not supported: %s\" % neighbourhood)", "        else:\n            criteria = lambda a_i, b_i, a_o, b_o, radius, rownum: True")),
    bug("hood-lower", "C16", (ADJ, "elif neighbourhood == 'Moore':", "elif neighbourhood.lower() == 'moore':")),
    same("bound-early", (ADJ, '    n = rows * cols\n', '    if boundary != "periodic":\n        raise ValueError("unsupported boundary condition: %s" % boundary)\n    n = rows * cols\n')),
]
