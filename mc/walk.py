"""Explicit-state reachability for a player-sized body (2 x 2 x 3 voxels) in the free voxels
of a set of tiles. A state is the lowest corner of the body; it moves by one voxel."""

SIZE = (2, 2, 3)
MOVES = ((1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1))


def places(cells, vox):
    """Where the body fits."""
    out = {(8 * x + i, 8 * y + j, 8 * z + k) for x, y, z in cells for i in range(8) for j in range(8) for k in range(8)}
    out.difference_update(vox)
    out = {p for p in out if (p[0] + 1, p[1], p[2]) in out}
    out = {p for p in out if (p[0], p[1] + 1, p[2]) in out}
    return {p for p in out if (p[0], p[1], p[2] + 1) in out and (p[0], p[1], p[2] + 2) in out}


def regions(ok):
    """Number of the connected region of each place; transitions taken."""
    comp, n = {}, 0
    for p in sorted(ok):
        if p in comp:
            continue
        todo = [p]
        comp[p] = n
        while todo:
            x, y, z = todo.pop()
            for a, b, c in MOVES:
                t = (x + a, y + b, z + c)
                if t in ok and t not in comp:
                    comp[t] = n
                    todo.append(t)
        n += 1
    return comp


def at_door(comp, cell, d):
    """Places where a body within the cell touches its face d: (sideways, height, region),
    sideways counted from the middle of the face as seen by one who walks out."""
    left = -1 if d[0] < 0 or d[1] > 0 else 1      # does the other axis run to the left of the walker?
    return {((u - 3) * left, z, comp[p]) for u, z, p in _doorway(cell, d, 6) if p in comp}


def standing(ok, vox, cell, d):
    """Heights at which a body stands on something while it is in the middle of the doorway d
    of the cell."""
    return sorted({z for u, z, p in _doorway(cell, d) if u in (2, 3, 4) and p in ok and
                   any((p[0] + i, p[1] + j, p[2] - 1) in vox for i in (0, 1) for j in (0, 1))})


def _doorway(cell, d, heights=8):
    ax = 0 if d[0] else 1
    for u in range(7):
        for z in range(heights):
            p = [8 * q for q in cell]
            p[ax] += 6 if d[ax] > 0 else 0
            p[1 - ax] += u
            p[2] += z
            yield u, z, tuple(p)


def touching(comp, xyz):
    """Regions from which a body can touch the point."""
    from math import floor, ceil
    xs, ys = ({floor(q), ceil(q) - 1} for q in xyz[:2])
    z = floor(xyz[2])
    return {comp[q] for x in xs for y in ys for i in (0, 1) for j in (0, 1) for k in range(3)
            for q in ((x - i, y - j, z - k),) if q in comp}


def join(sets):
    """Groups of sets that hang together, as lists of indices."""
    groups = []
    for i, s in enumerate(sets):
        mine, rest = ([i], set(s)), []
        for g in groups:
            if g[1] & mine[1]:
                mine = (g[0] + mine[0], g[1] | mine[1])
            else:
                rest.append(g)
        groups = rest + [mine]
    return [sorted(g[0]) for g in groups]
