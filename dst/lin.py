"""Linearizability: is there an order of the recorded calls, consistent with their real-time order,
in which each one's observation is explained by the model?"""


class GaveUp(Exception):
    pass


def linearize(calls, init, apply, limit=200000):
    """calls: list of (inv, ret, payload). Returns (ok, longest prefix as payload list)."""
    n = len(calls)
    order = sorted(range(n), key=lambda i: calls[i][0])
    seen = set()
    best = []
    nodes = 0
    stack = [(0, init, ())]
    full = (1 << n) - 1
    while stack:
        done, state, path = stack.pop()
        if done == full:
            return True, [calls[i][2] for i in path]
        if (done, state) in seen:
            continue
        seen.add((done, state))
        nodes += 1
        if nodes > limit:
            raise GaveUp()
        if len(path) > len(best):
            best = path
        # candidates: not done, and invoked before every other pending call returned
        mn = min(calls[i][1] for i in order if not done >> i & 1)
        for i in reversed(order):
            if done >> i & 1 or calls[i][0] > mn:
                continue
            for s2 in apply(state, calls[i][2]):
                stack.append((done | 1 << i, s2, path + (i,)))
    return False, [calls[i][2] for i in best]
