"""Walks over a state graph that together cover its transitions."""
import random
from collections import deque


def plan(g, seed, max_len, max_steps, internal=lambda act: False):
    """List of walks; a walk is [init node, [(actkey, target node), ...]].

    Greedy transition tour: prefer an uncovered outgoing edge, else the shortest path to
    a node that has one, else stop the walk.  Bounded by max_steps in total."""
    rnd = random.Random(seed)
    edges = [[(k, t) for k, ts in s.items() for t in ts] for s in g.succ]
    uncovered = [set(range(len(e))) for e in edges]
    total = sum(len(e) for e in edges)
    covered = 0
    walks = []
    steps = 0
    order = [sorted(u) for u in uncovered]
    stale = 0
    while steps < max_steps and covered < total:
        node = rnd.choice(g.init)
        walk = []
        start = node
        before = covered
        while len(walk) < max_len:
            if uncovered[node]:
                i = rnd.choice(sorted(uncovered[node])) if len(uncovered[node]) < 64 else next(iter(uncovered[node]))
                uncovered[node].discard(i)
                covered += 1
                walk.append(edges[node][i])
                node = edges[node][i][1]
                continue
            # BFS to nearest node with uncovered edges
            prev = {node: None}
            dq = deque([node])
            found = None
            lim = 20000
            while dq and lim:
                n = dq.popleft()
                lim -= 1
                idx = list(range(len(edges[n])))
                rnd.shuffle(idx)
                for i in idx:
                    t = edges[n][i][1]
                    if t not in prev:
                        prev[t] = (n, i)
                        if uncovered[t]:
                            found = t
                            break
                        dq.append(t)
                if found is not None:
                    break
            if found is None:
                break
            path = []
            n = found
            while prev[n] is not None:
                p, i = prev[n]
                path.append(edges[p][i])
                n = p
            path.reverse()
            if len(walk) + len(path) + 1 > max_len and walk:
                break
            walk += path
            node = found
        if not walk:
            break
        steps += len(walk)
        walks.append([start, walk])
        if covered == before:
            stale += 1
            if stale > 50:
                break
        else:
            stale = 0
    return walks, covered, total
