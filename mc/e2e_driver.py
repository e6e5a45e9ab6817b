"""One run of a command-line generator in a fresh process, contained in a directory of
its own; writes what came out, with object identities replaced by positions in lists.

argv: out-dir junk module argument..."""
import collections
import copy
import hashlib
import json
import os
import runpy
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    out, junk, module, argv = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4:]
    sys.path[0:0] = [os.environ.get('REMAPPER_REPO', '/repo'), os.path.dirname(HERE)]
    from mc import harness
    os.chdir(out)
    os.environ['HOME'] = out
    cont = harness.Containment([out])
    cont.enabled = True
    keep = [object() for _ in range(junk)]       # moves every later address
    del keep[::2]
    import redeclipse.prefabs
    import random
    for _ in range(junk % 11):
        random.random()                          # the caller may have used the random source before
    import redeclipse.textures as T
    copied = []
    T.TextureManager.copy_data = lambda self: copied.append(1)
    if os.environ.get('MC_LAYOUT_ONLY'):
        # nothing is drawn: what matters is which rooms are placed where
        import redeclipse.prefabs as P
        import redeclipse.prefabs.magica as M
        P.Room.render = lambda self, world, xmap: None
        M.MagicaRoom.render = lambda self, world, xmap: None
        real, known = M.MagicaRoom.load_model, {}

        def load_model(self):
            # (reading a model again gives the same)
            k = (type(self), self.vox_file, repr(self.boundary_additions), repr(self.doors))
            if k not in known:
                before = dict(self.__dict__)
                real(self)
                known[k] = {a: v for a, v in self.__dict__.items() if a not in before or before[a] is not v}
            for a, v in known[k].items():
                setattr(self, a, copy.copy(v))
        M.MagicaRoom.load_model = load_model
    import logging
    logging.disable(logging.CRITICAL)
    sys.argv = [module] + argv
    with harness.quiet():
        g = runpy.run_module(module, run_name='__main__')
        logging.disable(logging.CRITICAL)
    for k in ('mpz_out', 'magica', 'graph'):
        h = getattr(g.get('args'), k, None)
        if h:
            h.flush()
    res = {'copied': len(copied), 'files': {}}
    if 'upm' in g:
        v, m, upm, pre = g['v'], g['mymap'], g['upm'], g['prefabs']
        tm = pre.TEXMAN
        index = {id(r): i for i, r in enumerate(upm.rooms)}
        texid = {}
        for c in v.world:
            texid.setdefault(v.world[c].texture[0], 0)
        vox = sorted([int(c[0]), int(c[1]), int(c[2])] + [int(t) for t in v.world[c].texture] for c in v.world)
        res['size'] = v.size
        res['voxels'] = vox if len(vox) < 400000 else None
        res['voxelhash'] = hashlib.sha256(repr(vox).encode()).hexdigest()
        res['atlas'] = [[k, type(t).__name__, [repr(getattr(t, q, None)) for q in ('name', 'c', 'r', 'g', 'b', 'x')]] for k, t in sorted(tm.atlas.items())]
        pts = lambda q: [repr(q.x), repr(q.y), repr(q.z)]      # noqa: E731
        res['ents'] = [[type(e).__name__, pts(e.o), [int(a) if isinstance(a, int) else repr(a) for a in e.attrs], list(e.links), list(e.reserved)] for e in m.ents]
        res['entxyz'] = [[float(e.o.x), float(e.o.y), float(e.o.z)] for e in m.ents]
        res['rooms'] = [[type(r).__name__, getattr(r, 'name', None), list(map(repr, r.pos)), repr(r.orientation), sorted([int(q) for q in p] for p in r.get_positions())] for r in upm.rooms]
        res['doors'] = [[[[int(q) for q in d['offset']], [int(q) for q in d['orientation']]] for d in r.get_doorways()] for r in upm.rooms]
        res['links'] = [[list(map(int, a)), list(map(int, b))] for a, b in upm.links]
        res['linkrooms'] = [[index.get(id(upm.occupied.get(a)), -1), index.get(id(upm.occupied.get(b)), -1)] for a, b in upm.links]
        res['open'] = [[list(map(int, p)), index.get(id(r), -1), [int(q) for q in o]] for p, r, o in upm.unoccupied]
        res['cfg_extra'] = list(m.cfg_extra)
        res['vars'] = repr(sorted(m.map_vars.items(), key=repr))
        graph = getattr(g['args'], 'graph', None)
        if graph:
            data = json.load(open(graph.name))
            pos = {n['id']: i for i, n in enumerate(data['nodes'])}
            res['graph'] = [[n['name'] for n in data['nodes']], [[pos.get(x['source'], -1), pos.get(x['target'], -1)] for x in data['links']]]
            res['nodes'] = [index.get(n['id'], -1) for n in data['nodes']]
            os.remove(graph.name)                 # holds addresses
    for f in sorted(os.listdir(out)):
        with open(os.path.join(out, f), 'rb') as h:
            b = h.read()
        if f.endswith('.mpz'):
            import gzip
            b = gzip.decompress(b)                # the header holds the time
        res['files'][f] = [len(b), hashlib.sha256(b).hexdigest()]
    with open(os.path.join(out, 'result.json'), 'w') as h:
        json.dump(res, h)
    assert collections and redeclipse


main()
