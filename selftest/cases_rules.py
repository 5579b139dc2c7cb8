A = "rules/activity_rule.py"
GOL = '''    if center_cell == 1:
        if total - 1 < 2:
            return 0  # Any live cell with fewer than two live neighbours dies, as if caused by underpopulation.
        if total - 1 == 2 or total - 1 == 3:
            return 1  # Any live cell with two or three live neighbours lives on to the next generation.
        if total - 1 > 3:
            return 0  # Any live cell with more than three live neighbours dies, as if by overpopulation.
    else:
        if total == 3:
            return 1  # Any dead cell with exactly three live neighbours becomes a live cell, as if by reproduction.
        else:
            return 0
'''


def bug(name, props, *edits):
    return {"name": name, "kind": "bug", "props": props.split(), "edits": list(edits)}


def same(name, *edits, props=None):
    return {"name": name, "kind": "same", "props": props, "edits": list(edits)}


CASES = [
    bug("gol-four", "C19", (A, "if total - 1 == 2 or total - 1 == 3:", "if total - 1 in (2, 3, 4):"), (A, "if total - 1 > 3:", "if total - 1 > 4:")),
    bug("gol-eight", "C19", (A, "if total - 1 > 3:", "if 3 < total - 1 < 8:")),
    bug("gol-b36", "C19", (A, "if total == 3:", "if total == 3 or total == 6:")),
    same("gol-table", (A, GOL, '''    survive = (0, 0, 1, 1, 0, 0, 0, 0, 0)
    if center_cell == 1:
        return survive[total - 1]
    return int(total == 3)
''')),
    same("gol-sum", (A, "    total = np.sum(activities)\n    if center_cell == 1:", "    total = 0\n    for a in activities:\n        total += a\n    if center_cell == 1:")),
    same("gol-sum2", (A, "    total = np.sum(activities)\n    if center_cell == 1:", "    total = sum(a for a in activities if a)\n    if center_cell == 1:")),
    same("gol-count", (A, "    total = np.sum(activities)\n    if center_cell == 1:", "    total = len([a for a in activities if a == 1])\n    if center_cell == 1:")),
    same("gol-set", (A, GOL, "    return 1 if total == 3 or (center_cell == 1 and total == 4) else 0\n")),
    bug("ww-zero", "C19", (A, "return 1 if electron_head_count == 1 or electron_head_count == 2 else 3", "return 1 if electron_head_count <= 2 else 3")),
    bug("ww-3", "C19", (A, "return 1 if electron_head_count == 1 or electron_head_count == 2 else 3", "return 1 if electron_head_count in (1, 2, 7) else 3")),
    same("ww-sum", (A, "ctx.neighbourhood_activities.count(1)\n", "sum(1 for a in ctx.neighbourhood_activities if a == 1)\n")),
    same("ww-between", (A, "return 1 if electron_head_count == 1 or electron_head_count == 2 else 3", "return 1 if 0 < electron_head_count < 3 else 3")),
    same("ww-dict", (A, '''    if ctx.current_activity == 0:  # empty
        return 0
    if ctx.current_activity == 1:  # electron head
        return 2
    if ctx.current_activity == 2:  # electron tail
        return 3
    if ctx.current_activity == 3:  # conductor''', '''    fixed = {0: 0, 1: 2, 2: 3}
    if ctx.current_activity in fixed:
        return fixed[ctx.current_activity]
    if ctx.current_activity == 3:  # conductor''')),
]

N = "analysis.py"
JOINT = '''    X = np.array(list(stringX))
    Y = np.array(list(stringY))
    joint_symbol_probabilities = []
    for x in dict.fromkeys(X):
        for y in dict.fromkeys(Y):
            joint_symbol_probabilities.append(np.mean(np.logical_and(X == x, Y == y)))
    return sum(-p * np.log2(p) for p in joint_symbol_probabilities if p != 0)
'''
ENT = '''    symbols = dict.fromkeys(list(string))
    symbol_probabilities = [float(string.count(symbol)) / len(string) for symbol in symbols]
    H = -sum([p_symbol * math.log(p_symbol, 2.0) for p_symbol in symbol_probabilities])
'''
INT = '''    total = 0
    for shift, j in enumerate(bits[::-1]):
        if j:
            total += 1 << shift
    return total
'''
CASES += [
    bug("ent-join", "C28", (N, "symbols = dict.fromkeys(list(string))", "symbols = dict.fromkeys(''.join(string))")),
    bug("ent-base", "C28", (N, "math.log(p_symbol, 2.0)", "math.log(p_symbol)")),
    bug("ent-half", "C28", (N, "for p_symbol in symbol_probabilities])", "for p_symbol in symbol_probabilities if p_symbol < 0.5])")),
    bug("joint-or", "C28", (N, "np.logical_and(X == x, Y == y)", "np.logical_or(X == x, Y == y)")),
    bug("joint-yx", "C28", (N, "for y in dict.fromkeys(Y):", "for y in dict.fromkeys(X):")),
    bug("joint-half", "C28", (N, "for p in joint_symbol_probabilities if p != 0)", "for p in joint_symbol_probabilities if p > 0.125)")),
    bug("mi", "C28", (N, "shannon_entropy(stringX) + shannon_entropy(stringY) -", "2 * shannon_entropy(stringX) -")),
    same("ent-set", (N, ENT, '''    n = len(string)
    H = 0
    for symbol in set(string):
        p = string.count(symbol) / n
        H -= p * math.log2(p)
''')),
    same("ent-counter", (N, ENT, '''    import collections
    n = len(string)
    H = 0
    for symbol, c in collections.Counter(string).items():
        p = c / n
        H = H - p * math.log2(p)
''')),
    same("joint-zip", (N, JOINT, '''    import collections
    counts = collections.Counter(zip(stringX, stringY))
    n = len(stringX)
    return -sum((c / n) * math.log2(c / n) for c in counts.values())
''')),
    same("joint-py", (N, JOINT, '''    n = len(stringX)
    pairs = [(x, y) for x, y in zip(stringX, stringY)]
    result = 0
    for pair in set(pairs):
        p = pairs.count(pair) / n
        result += -p * np.log2(p)
    return result
''')),
    bug("bits-rev", "C20", (A, "enumerate(bits[::-1])", "enumerate(bits)")),
    bug("bits-shift", "C20", (A, "total += 1 << shift", "total += 1 << min(shift, 3)")),
    same("bits-pow", (A, INT, "    n = len(bits)\n    return sum(2 ** (n - 1 - i) for i, b in enumerate(bits) if b)\n")),
    same("bits-mul", (A, INT, "    total = 0\n    for b in bits:\n        total = 2 * total + int(bool(b))\n    return total\n")),
    same("bits-int", (A, INT, "    return int(''.join('1' if b else '0' for b in bits), 2)\n")),
    same("bits-or", (A, INT, "    total = 0\n    for b in bits:\n        total = (total << 1) | (1 if b else 0)\n    return total\n")),
    bug("nks", "C20", (A, "return rule_bin_array[(n-1) - state_int]", "return rule_bin_array[-state_int]")),
    bug("nks2", "C20", (A, "if scheme == 'nks':", "if scheme is None:")),
    same("nks3", (A, "return rule_bin_array[(n-1) - state_int]", "return rule_bin_array[::-1][state_int]")),
    same("nks4", (A, "return rule_bin_array[(n-1) - state_int]", "return rule_bin_array[-1 - state_int]")),
    same("nks5", (A, "    return binary_ca_rule(rule, scheme='nks')", "    def _rule(ctx):\n        n = 2 ** len(ctx.neighbourhood_activities)\n        return int_to_bits(rule, n)[n - 1 - bits_to_int(ctx.neighbourhood_activities)]\n    return _rule")),
    bug("tot-pos", "C20", (A, "rule_string[n*(k - 1) - neighbourhood_sum]", "rule_string[neighbourhood_sum]")),
    bug("tot-range", "C20", (A, "if len(rule_string) > n*(k - 1) + 1:", "if len(rule_string) > n*(k - 1) + 2:")),
    bug("tot-fill", "C20", (A, ".zfill(n*(k - 1) + 1)", ".zfill(n*(k - 1))")),
    same("tot-neg", (A, "rule_string[n*(k - 1) - neighbourhood_sum]", "rule_string[-1 - neighbourhood_sum]")),
    same("tot-arith", (A, "return int(rule_string[n*(k - 1) - neighbourhood_sum], k)", "return (rule // k ** int(neighbourhood_sum)) % k")),
    bug("int-pad", "C20", (A, "(num_digits - len(converted), 0)", "(0, num_digits - len(converted))")),
]
