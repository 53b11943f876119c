"""Walks over the state graph of a model: behaviours of the specification, to be replayed on the real code."""
import collections, json, re


def graph(c, module, cfg):
    """the states TLC finds, with the actions possible in each: {state: [(action, next state)]}"""
    log = c.model(module, cfg, env={"EMIT": "1"})
    g, num, start = {}, {}, None
    key = lambda t: num.setdefault(t, len(num))
    for m in re.finditer(r'^"NODE (.*)"$', log, re.M):
        d = json.loads(json.loads('"%s"' % m.group(1)))
        k = key(d["s"])
        start = k if start is None else start
        g[k] = sorted(((tuple(tuple(x) if isinstance(x, list) else x for x in a[:3]), key(a[3])) for a in d["t"]), key=repr)
    # (states beyond the bound have no successors listed)
    return g, start


def walks(r, g, start, edges, length):
    """walks from the start that prefer what no walk has done yet; until `edges` transitions are covered"""
    total = sum(len(v) for v in g.values())
    done, out = set(), []
    todo = {k: set(range(len(v))) for k, v in g.items()}
    while len(done) < min(edges, total):
        at, w, fresh = start, [], 0
        while len(w) < length and g.get(at):
            if todo[at]:
                j = r.choice(sorted(todo[at]))
            else:
                path = nearest(r, g, at, todo)
                if path is None:
                    break
                j = path[0]
            act, nxt = g[at][j]
            w.append(act)
            todo[at].discard(j)
            if (at, j) not in done:
                done.add((at, j))
                fresh += 1
            at = nxt
        out.append(w)
        if not fresh:
            break
    return out, len(done), total


def nearest(r, g, at, todo):
    seen, q = {at}, collections.deque([(at, None)])
    while q:
        k, first = q.popleft()
        if first is not None and todo.get(k):
            return [first]
        js = list(range(len(g.get(k, ()))))
        r.shuffle(js)
        for j in js:
            n = g[k][j][1]
            if n not in seen and n in g:
                seen.add(n)
                q.append((n, j if first is None else first))
    return None
