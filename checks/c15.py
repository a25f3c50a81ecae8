"""C15 - trajectory graphs: all small graphs, all ways of building them."""
import numpy as np

from dg_commons.planning.trajectory import Trajectory, TrajectoryGraph
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleState

ASSUMPTIONS = ["graphs have a single root that was added with generation 0", "edges point forward in time"]


def st(i, t):
    # positions may repeat at different times; (time, state) is what identifies a node
    return VehicleState(x=float(i), y=0.0, psi=0.1 * i, vx=1.0 + t, delta=0.0)


# layered nodes: (layer = time, index)
def nodes_of(layers):
    return [(t, i) for t, w in enumerate(layers) for i in range(w)]


def paths(edges, a, b):
    if a == b:
        return [[a]]
    return [[a] + p for (u, v) in edges if u == a for p in paths(edges, v, b)]


def body(c, layerings, order):
    layers = c.pick(layerings, "layers")
    same_state = c.flag("states repeat in time")
    state = (lambda n: st(n[1], 0)) if same_state else (lambda n: st(n[1], n[0]))
    allnodes = nodes_of(layers)
    root = allnodes[0]
    timed = {n: (n[0], state(n)) for n in allnodes}
    cand = [(u, v) for u in allnodes for v in allnodes if v[0] > u[0] and (v[0] - u[0] == 1 or u == root)]
    g = TrajectoryGraph()
    other = TrajectoryGraph()
    g.add_node(timed[root], gen=0)
    reached, edges, gen = [root], [], {root: 0}
    # build in every order allowed by "the source must be there"
    if c.pick(order, "order") == "backward":
        cand = sorted(cand, key=lambda e: (e[0][0], -e[1][0], -e[1][1]))
    for u, v in cand:
        if not c.flag(f"{u}->{v}"):
            continue
        seg = Trajectory(timestamps=[u[0], v[0]], values=[state(u), state(v)])
        mid = VehicleState(x=100.0 * u[1] + v[1], y=v[0], psi=0.0, vx=0.0, delta=u[0])
        tran = Trajectory(timestamps=[u[0], (u[0] + v[0]) / 2, v[0]], values=[state(u), mid, state(v)])
        cmd = VehicleCommands(acc=10.0 * u[1] + v[1], ddelta=u[0] * 10.0 + v[0])
        if u not in reached:
            try:
                g.add_edge(seg, tran, commands=cmd)
                c.fail("unknown-source", f"an edge from {u}, which is not in the graph, was accepted")
            except ValueError:
                pass
            continue
        g.add_edge(seg, tran, commands=cmd)
        edges.append((u, v))
        if v not in reached:
            reached.append(v)
            gen[v] = gen[u] + 1
    c.step(len(edges) + 1)
    c.check(len(other.nodes) == 0, "shared", "two graphs share their nodes")
    c.check(set(g.nodes) == {timed[n] for n in reached}, "nodes", lambda: f"{edges}")
    c.check(set(g.edges) == {(timed[u], timed[v]) for u, v in edges}, "edges", lambda: f"{edges}")
    for n in reached:
        c.check(g.nodes[timed[n]]["gen"] == gen[n], "generation", lambda: f"{n}: {g.nodes[timed[n]]['gen']} in {edges}")

    def along(p):
        return Trajectory(timestamps=[n[0] for n in p], values=[state(n) for n in p])

    def dense(p):
        ts, vs = [p[0][0]], [state(p[0])]
        for u, v in zip(p, p[1:]):
            ts += [(u[0] + v[0]) / 2, v[0]]
            vs += [VehicleState(x=100.0 * u[1] + v[1], y=v[0], psi=0.0, vx=0.0, delta=u[0]), state(v)]
        return ts, vs

    def key(tr):
        return tuple((float(t), v) for t, v in tr)
    leaves = [n for n in reached if not any(u == n for u, _ in edges)]
    every = [p for leaf in leaves for p in paths(edges, root, leaf)]
    got = g.get_all_trajectories()
    c.compared(2 + len(every))
    c.check({key(t) for t in got} == {key(along(p)) for p in every} and len(got) == len(every), "all-trajectories",
            lambda: f"{len(got)} trajectories, expected {len(every)}: {edges}")
    if edges:
        got = {key(t) for t in g.get_all_transitions()}
        want = {tuple(zip(map(float, dense(p)[0]), dense(p)[1])) for p in every}
        c.check(got == want, "all-transitions", lambda: f"{len(got)} transitions, expected {len(want)}: {edges}")
    for p in every:
        if len(p) > 1:
            cmds = g.commands_on_trajectory(along(p))
            want = [(u[0], VehicleCommands(acc=10.0 * u[1] + v[1], ddelta=u[0] * 10.0 + v[0])) for u, v in zip(p, p[1:])]
            c.check(list(cmds) == want, "commands", lambda: f"along {p} in {edges}: {list(cmds)}")
    # a trajectory with intermediate samples is not made of nodes: the commands are those of the (only) way between its ends
    for a in reached:
        for b in reached:
            ps = paths(edges, a, b)
            if a == b or len(ps) != 1:
                continue
            ts, vs = dense(ps[0])
            cmds = g.commands_on_trajectory(Trajectory(timestamps=ts, values=vs))
            want = [(u[0], VehicleCommands(acc=10.0 * u[1] + v[1], ddelta=u[0] * 10.0 + v[0])) for u, v in zip(ps[0], ps[0][1:])]
            c.compared()
            c.check(list(cmds) == want, "commands", lambda: f"along the samples of {ps[0]} in {edges}: {list(cmds)}")
            inner = ps[0][1:-1]
            for k in range(2 ** len(inner) - 1 if len(inner) <= 4 else 0):  # some of the nodes only
                some = [ps[0][0]] + [n for i, n in enumerate(inner) if k >> i & 1] + [ps[0][-1]]
                cmds = g.commands_on_trajectory(along(some))
                c.compared()
                c.check(list(cmds) == want, "commands", lambda: f"along {some} of {ps[0]} in {edges}: {list(cmds)}")
    for a in reached:
        for b in reached:
            ps = paths(edges, a, b)
            c.compared()
            try:
                tr = g.get_trajectory(timed[a], timed[b])
                c.check(bool(ps), "no-path", lambda: f"{a}->{b} in {edges}")
                short = min(len(p) for p in ps)
                c.check(key(tr) in {key(along(p)) for p in ps if len(p) == short}, "shortest", lambda: f"{a}->{b} in {edges}")
                if a != b:
                    tn = g.get_transition(timed[a], timed[b])
                    c.check(key(tn) in {tuple(zip(map(float, dense(p)[0]), dense(p)[1])) for p in ps if len(p) == short},
                            "transition", lambda: f"{a}->{b} in {edges}")
            except ValueError:
                c.check(not ps, "no-path", lambda: f"{a}->{b} refused in {edges}")
    for n in allnodes:
        if n not in reached:
            try:
                g.get_trajectory(timed[root], timed[n])
                c.fail("unknown-node", f"{n} is not in the graph")
            except ValueError:
                pass
    c.state((layers, same_state, edges))
    c.outcome((len(every), len(edges)))


HARNESSES = [
    dict(name="graphs", body=body, space="all layered graphs x insertion order",
         quick=dict(layerings=[(1,), (1, 2), (1, 1, 1), (1, 2, 1), (1, 2, 2)], order=["forward", "backward"]),
         thorough=dict(layerings=[(1,), (1, 3), (1, 1, 1), (1, 1, 1, 1), (1, 2, 1), (1, 2, 2), (1, 2, 1, 1), (1, 3, 2), (1, 2, 3)], order=["forward", "backward"])),
    dict(name="chains", body=body, space="all graphs on a chain with shortcuts from the root",
         quick=dict(layerings=[(1,) * 6, (1,) * 7], order=["forward", "backward"]),
         thorough=dict(layerings=[(1,) * 6, (1,) * 7, (1,) * 8, (1, 1, 1, 2, 1, 1)], order=["forward", "backward"])),
]
