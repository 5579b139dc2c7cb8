A = "rules/activity_rule.py"
CTX = '''
class Ctx:
    def __init__(self, cur, acts):
        self.current_activity = cur
        self.neighbourhood_activities = acts
        self.neighbourhood_labels = list(range(len(acts)))
        self.timestep = 1
'''
BUGS = [
    dict(id="gol-crowded", property="C19", edits=[(A, "if total - 1 > 3:", "if 8 > total - 1 > 3:")],
         needs="a live cell all of whose eight neighbours are live", breaks="the Game of Life rule has no answer (None) for a fully surrounded live cell",
         demo=CTX + "import netomaton as ntm\nassert ntm.rules.game_of_life_rule(Ctx(1, [1]*9)) == 0\n"),
    dict(id="ww-heads", property="C19", edits=[(A, "return 1 if electron_head_count == 1 or electron_head_count == 2 else 3", "return 1 if electron_head_count % 4 in (1, 2) else 3")],
         needs="a conductor with five or six electron-head neighbours", breaks="a wireworld conductor with 5 or 6 electron-head neighbours becomes an electron head",
         demo=CTX + "import netomaton as ntm\nassert ntm.rules.wireworld_rule(Ctx(3, [1]*5+[3]+[0]*3)) == 3\n"),
    dict(id="totalistic-wide", property="C20", edits=[(A, "return int(rule_string[n*(k - 1) - neighbourhood_sum], k)", "return int(rule_string[n*(k - 1) - neighbourhood_sum])")],
         needs="a rule with more than ten colours whose digit for the sum is above nine", breaks="digits above 9 of a totalistic rule are not decoded",
         demo=CTX + "import netomaton as ntm\nassert ntm.rules.totalistic_ca(12, 11)(Ctx(0, [0, 0, 0])) == 11\n"),
    dict(id="bits-len", property="C20", edits=[(A, "        n = 2**len(activities)\n", "        n = 2**min(len(activities), 7)\n")],
         needs="a binary rule with a neighbourhood of more than seven cells", breaks="binary rules with radius of four or more are decoded with a table of the wrong width",
         demo=CTX + "import netomaton as ntm\nassert ntm.rules.nks_ca_rule(1 << 384)(Ctx(0, [1, 1] + [0]*7)) == 1\n"),
    dict(id="joint-short", property="C28", edits=[("analysis.py", "    return sum(-p * np.log2(p) for p in joint_symbol_probabilities if p != 0)", "    return sum(-p * np.log2(p) for p in joint_symbol_probabilities if p > 1e-3)")],
         needs="strings of more than a thousand symbols in which a pair of symbols is rare", breaks="pairs with a frequency below 1/1000 are left out of the joint entropy",
         demo="import math\nfrom netomaton.analysis import joint_shannon_entropy as j\nx = 'a' * 1999 + 'b'\nassert abs(j(x, x) - (-(1999/2000)*math.log2(1999/2000) + math.log2(2000)/2000)) < 1e-9\n"),
    dict(id="mi-offset", property="C27", edits=[("analysis.py", "        mi = mutual_information(node_states_over_time[:-temporal_distance], node_states_over_time[temporal_distance:])", "        half = -(-temporal_distance // 2) if temporal_distance > len(activities) // 2 + 1 else temporal_distance\n        mi = mutual_information(node_states_over_time[:-half], node_states_over_time[half:])")],
         needs="a temporal distance of more than half the number of timesteps plus one", breaks="states are paired with ones at half the temporal distance",
         demo="import netomaton as ntm\nfrom netomaton.analysis import *\na = [[0], [1], [1], [0], [1], [0], [0], [1]]\ns = [str(x[0]) for x in a]\nassert abs(average_mutual_information(a, 6) - mutual_information(s[:-6], s[6:])) < 1e-9\n"),
    dict(id="turtle-turns", property="C33", edits=[("turtle.py", "        self._stack.append((self.x, self.y, self.orientation))", "        self._stack.append((self.x, self.y, self.orientation % 360 if self.orientation > 360 else self.orientation))")],
         needs="a turtle turned by more than a full circle before push", breaks="the orientation is not the one at push",
         demo="from netomaton.turtle import Turtle\nt = Turtle()\nt.rotate(450)\nt.push()\nt.rotate(10)\nt.pop()\nassert t.orientation == 450\n"),
]
