"""Transition tours: turn the state graph TLC printed into walks that cover every edge."""
import json, random
from collections import deque


def graphs(printed):
    """["E", c, st, x, out, st2] lines -> {c: {node: {x: node2}}}"""
    G = {}
    for p in printed:
        if p[0] != "E":
            continue
        _, c, st, x, out, st2 = p
        a, b = json.dumps(st, sort_keys=True), json.dumps(st2, sort_keys=True)
        G.setdefault(c, {}).setdefault(a, {})[x] = b
    return G


def tour(graph, init, rnd, maxlen=300, maxwalks=64):
    """walks (lists of input indices) from init covering the edges; returns walks, covered, total"""
    todo = {n: set(e) for n, e in graph.items()}
    total = sum(len(e) for e in graph.values())
    covered = 0
    walks = []
    while covered < total and len(walks) < maxwalks:
        node, walk, got = init, [], 0
        while len(walk) < maxlen:
            if todo.get(node):
                x = rnd.choice(sorted(todo[node]))
                todo[node].discard(x)
                covered += 1
                got += 1
                walk.append(x)
                node = graph[node][x]
                continue
            # nearest node with an untaken edge
            seen, q, hit = {node: None}, deque([node]), None
            while q:
                u = q.popleft()
                if todo.get(u):
                    hit = u
                    break
                for x, v in graph.get(u, {}).items():
                    if v not in seen:
                        seen[v] = (u, x)
                        q.append(v)
            if hit is None:
                break
            path = []
            while seen[hit] is not None:
                u, x = seen[hit]
                path.append(x)
                hit = u
            walk += path[::-1]
            for x in path[::-1]:
                node = graph[node][x]
        if got == 0:
            break
        walks.append(walk)
    return walks, covered, total
