"""Histories for the harness which cover the transitions of a model.

The models print every transition as  EDGE <state> <successor> <commands>.  Histories begin in the
initial state and follow transitions; those which were not taken are preferred, and of these the
ones whose commands were used least, so that a part of the transitions (quick checks) has as much
variety as possible.
"""
import random, re
from collections import deque

EDGE = re.compile(r'^"EDGE (\S+) (\S+) (.*)"$', re.M)


def edges(out):
    seen, init, adj = set(), None, {}
    for m in EDGE.finditer(out):
        a, b, cmd = m.groups()
        if init is None:
            init = a
        if (a, cmd) not in seen:
            seen.add((a, cmd))
            adj.setdefault(a, []).append((cmd, b))
    return init, adj


def write(out, path, seed, opts):
    """opts: prefix (commands which make the devices), budget (commands), length (of a history);
    returns what was covered"""
    init, adj = edges(out)
    rnd = random.Random(seed)
    for a in sorted(adj):
        adj[a].sort()
        rnd.shuffle(adj[a])
    left = {a: list(es) for a, es in adj.items()}
    total = sum(len(es) for es in adj.values())
    used, kinds = {}, {}
    budget, length = opts["budget"], opts.get("length", 60)
    covered = commands = histories = 0
    states = set()

    def kind(a, e):
        return (e[0], a == e[1])

    def path_to_open(a):
        """the shortest way from a to a transition which was not taken"""
        prev, q = {a: None}, deque([a])
        while q:
            x = q.popleft()
            if left.get(x):
                w = []
                while prev[x] is not None:
                    y, e = prev[x]
                    w.append(e)
                    x = y
                return w[::-1]
            es = adj.get(x, [])
            k = rnd.randrange(len(es)) if es else 0
            for e in es[k:] + es[:k]:
                if e[1] not in prev:
                    prev[e[1]] = (x, e)
                    q.append(e[1])
        return None

    with open(path, "w") as f:
        while commands < budget and covered < total:
            histories += 1
            f.write("begin w%d\n%s\n" % (histories, opts["prefix"]))
            a, n = init, 0
            while n < length and covered < total:
                states.add(a)
                if left.get(a):
                    best = min(kinds.get(kind(a, e), 0) for e in left[a])
                    e = next(e for e in left[a] if kinds.get(kind(a, e), 0) == best)
                    way = [e]
                else:
                    way = path_to_open(a)
                    if way is None or n + len(way) > length:
                        break
                for e in way:
                    if e in left.get(a, []):
                        left[a].remove(e)
                        covered += 1
                    kinds[kind(a, e)] = kinds.get(kind(a, e), 0) + 1
                    for c in e[0].split("|"):
                        f.write(c + "\n")
                        commands += 1
                        n += 1
                    a = e[1]
            if n == 0:
                break
    return {"transitions_replayed": covered, "transitions_of_model": total,
            "states_visited": len(states), "walks": histories, "walk_commands": commands}
