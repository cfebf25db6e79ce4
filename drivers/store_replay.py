# args: transitions.json out.json seed keytype : walks every transition of the explored state graph through the real container
import vqboot, sys, random
import store_common as sco
from collections import deque


def canon(v):
    return vqboot.json.dumps(v)


def main(inp, outp, seed, kt):
    d = vqboot.load(inp)
    bad = []
    steps = replays = 0
    for g in d:
        sc, ops = g['sc'], g['ops']
        api = sco.Api(sc, [kt] * sc['n'], random.Random('%s/%s' % (seed, g['si'])))
        states = dict((canon(s['view']), s['r']) for s in g['st'])
        empty = canon([[] for i in range(sc['n'])])
        # breadth first tree from the empty state
        succ = {}
        for v, r in states.items():
            succ[v] = []
            for x in r:
                if x[0] in ('skip', 'later'):
                    succ[v].append(canon(x[2]) if len(x) > 2 else v)
                else:
                    succ[v].append(canon(x[1]) if len(x) > 1 else v)
        parent = {empty: None}
        q = deque([empty])
        while q:
            v = q.popleft()
            for i, w in enumerate(succ[v]):
                if w not in parent:
                    parent[w] = (v, i)
                    q.append(w)
        todo = dict((v, set(i for i in range(len(ops)) if states[v][i][0] not in ('skip', 'later'))) for v in states)
        broken = set()
        order = list(parent)
        random.Random(seed).shuffle(order)
        hist = None

        def step(v, i):
            """performs op i in state v of the current history; returns the state reached or None"""
            hist.append(i)
            err = api.apply(ops[i])
            view = api.view()
            want = states[v][i]
            if want[0] in ('later', 'skip'):
                want = want[1:]
            if err != want[0] or canon(view) != succ[v][i]:
                if len(bad) < 40:
                    bad.append({'sc': sc, 'history': [ops[x] for x in hist], 'in': v, 'err': err, 'view': view, 'note': api.note,
                                'expected_err': want[0], 'expected_view': succ[v][i]})
                return None
            return succ[v][i]

        for v0 in order:
            while todo[v0]:
                # walk to v0 along the tree
                path = []
                v = v0
                while parent[v] is not None:
                    path.append(parent[v][1])
                    v = parent[v][0]
                path.reverse()
                api.reset()
                hist = []
                replays += 1
                v = empty
                for i in path:
                    todo[v].discard(i)
                    v = step(v, i)
                    steps += 1
                    if v is None:
                        break
                if v is None:
                    broken.add(v0)
                    todo[v0] = set()
                    break
                # then try untested operations from wherever we are
                while todo[v]:
                    i = todo[v].pop()
                    v = step(v, i)
                    steps += 1
                    if v is None:
                        break
    vqboot.json.dump({'bad': bad, 'steps': steps, 'replays': replays}, open(outp, 'wb'))


main(sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4])
