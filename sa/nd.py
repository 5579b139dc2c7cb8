"""NumPy arrays in the interpretation of normal forms: nested lists (ident.Array)"""


def flat(a):
    if not isinstance(a, list):
        return [a]
    out = []
    for x in a:
        out.extend(flat(x))
    return out


def shape(a):
    return (len(a),) + (shape(a[0]) if a and isinstance(a[0], list) else ()) if isinstance(a, list) else ()


def array(x, Array):
    if isinstance(x, (list, tuple, range)):
        return Array([array(y, Array) for y in x])
    return x


def reshape(xs, dims, Array, Fault):
    dims = list(dims)
    if dims.count(-1) == 1:
        n = 1
        for d in dims:
            n *= d if d != -1 else 1
        dims[dims.index(-1)] = len(xs) // n if n else 0
    n = 1
    for d in dims:
        n *= d
    if n != len(xs):
        raise Fault("reshape")

    def go(xs, dims):
        if len(dims) == 1:
            return Array(xs)
        step = len(xs) // dims[0] if dims[0] else 0
        return Array(go(xs[k * step:(k + 1) * step], dims[1:]) for k in range(dims[0]))
    return go(list(xs), dims) if dims else xs[0]


def tolist(a):
    return [tolist(x) for x in a] if isinstance(a, list) else a


def get(a, key, Array, Fault):
    if not key:
        return a
    k, rest = key[0], key[1:]
    if not isinstance(a, list):
        raise Fault("index of a number")
    if isinstance(k, slice):
        return Array(get(x, rest, Array, Fault) for x in a[k])
    if isinstance(k, bool) or not isinstance(k, int):
        raise Fault("index")
    return get(a[k], rest, Array, Fault)


def put(a, key, x, Fault):
    k = key[0]
    if isinstance(k, bool) or not isinstance(k, int):
        raise Fault("index")
    if len(key) > 1:
        return put(a[k], key[1:], x, Fault)
    a[k] = x


def zeros(dims, Array, x=0):
    if isinstance(dims, int):
        dims = (dims,)
    return Array(zeros(dims[1:], Array, x) for _ in range(dims[0])) if dims else x
