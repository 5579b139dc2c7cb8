"""What the abstract networks of the analysis stand for, for the interpretation of normal forms."""


class NetVal(object):
    def __init__(self, n=0):
        self.attrs = {i: {} for i in range(n)}
        self.inc = {i: {} for i in range(n)}
        self.rot = None

    def copy(self):
        r = NetVal()
        r.attrs = {k: dict(v) for k, v in self.attrs.items()}
        r.inc = {j: {i: [dict(a) for a in es] for i, es in d.items()} for j, d in self.inc.items()}
        r.rot = None if self.rot is None else dict(self.rot)
        return r

    def add_node(self, n, **attrs):
        self.attrs.setdefault(n, {})
        self.inc.setdefault(n, {})
        self.attrs[n].update(attrs)

    def add_edge(self, i, j, **attrs):
        self.add_node(i)
        self.add_node(j)
        self.inc[j].setdefault(i, []).append(dict(attrs))

    def update_edge(self, i, j, indices=None, **attrs):
        es = self.inc[j][i]
        for k in range(len(es)) if indices is None else indices:
            es[k].update(attrs)

    def remove_edge(self, i, j):
        del self.inc[j][i]

    def remove_node(self, n):
        del self.attrs[n]
        del self.inc[n]
        for d in self.inc.values():
            d.pop(n, None)
        if self.rot is not None:
            self.rot = {k: [x for x in v if x != n] for k, v in self.rot.items() if k != n}

    # queries
    def nodes(self):
        return dict.fromkeys(self.attrs)

    def edges(self):
        return [(i, j, a) for j, d in self.inc.items() for i, es in d.items() for a in es]

    def in_edges(self, n):
        return self.inc[n]

    def edge(self, i, j):
        return self.inc[j][i]

    def has_edge(self, i, j):
        return j in self.inc and i in self.inc[j]

    def in_degree(self, n):
        return sum(len(es) for es in self.inc[n].values())

    def out_degree(self, n):
        return sum(len(d.get(n, ())) for d in self.inc.values())

    def degree(self, n):
        return self.in_degree(n) + self.out_degree(n)

    def rotation_system(self):
        return self.rot

    def to_dict(self):
        return {n: dict({"in": self.in_degree(n), "out": self.out_degree(n), "incoming": self.inc[n],
                         "outgoing": [j for j, d in self.inc.items() for _ in d.get(n, ())]}, **self.attrs[n]) for n in self.attrs}

    def key(self, rotation=True):
        def fz(v):
            from .ident import freeze
            return freeze(v)
        return (tuple(sorted((repr(k), repr(fz(v))) for k, v in self.attrs.items())),
                tuple(sorted((repr(i), repr(j), repr(fz(a))) for i, j, a in self.edges())),
                repr(fz(self.rot)) if rotation and self.rot is not None else None)

    def __eq__(self, o):
        return isinstance(o, NetVal) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __len__(self):
        return len(self.attrs)

    def __repr__(self):
        return "<network %s, edges %s%s>" % (list(self.attrs), [(i, j) for i, j, _ in self.edges()], "" if self.rot is None else ", ordered")
