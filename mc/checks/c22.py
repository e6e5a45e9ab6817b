"""C22: texture slots are stable and contiguous, equal colours share one, and the emitted
configuration, read the way the game reads it, gives every slot its own texture."""
import itertools
import os
import shlex

from mc import harness

CATS = ('generic', 'column', 'floor', 'wall', 'accent', 'no such category')


def game_read(text):
    """The slots a game builds from the configuration: a diffuse texture opens the next
    slot, further maps and texcolor belong to it, shader settings apply from there on."""
    slots, shader, params, warn = [], None, {}, []
    for raw in text.split('\n'):
        line = raw.split('//')[0].strip()
        if not line:
            continue
        w = shlex.split(line)
        if w[0] == 'setshader':
            shader, params = w[1], {}
            if len(w) != 2:
                warn.append(raw)
        elif w[0] == 'setshaderparam':
            params[w[1]] = [float(x) for x in w[2:]]
        elif w[0] == 'texture':
            if w[1] in ('c', '0'):
                slots.append({'shader': shader, 'params': dict(params), 'maps': {'c': w[2]}, 'args': [float(x) for x in w[3:]], 'colour': None})
            elif slots and w[1] in 'udngsze' and w[1] not in slots[-1]['maps']:
                slots[-1]['maps'][w[1]] = w[2]
            else:
                warn.append(raw)
        elif w[0] in ('texcolor', 'texscroll'):
            if len(w) != (4 if w[0] == 'texcolor' else 3) or not slots:
                warn.append(raw)
            else:
                slots[-1]['colour' if w[0] == 'texcolor' else 'scroll'] = tuple(float(x) for x in w[1:])
        else:
            warn.append(raw)
    return slots, warn


NEEDS = {'stdworld': 'c', 'bumpspecmapworld': 'cns', 'bumpspecmapparallaxworld': 'cnsz', 'bumpspecmapparallaxglowworld': 'cnszg'}


class Out:
    def __init__(self, name):
        self.name = name


def run(ck):
    import redeclipse.textures as T
    from redeclipse.textures import basetex

    def emitted(man):
        p = ck.path('conf.mpz')
        man.emit_conf(Out(p))
        with open(ck.path('conf.cfg')) as h:
            return h.read()

    def judge_conf(man, key, rep):
        """Slots of the file = atlas, in order."""
        ok, text = ck.guard('emit:' + key, lambda: emitted(man), rep)
        if not ok:
            return
        slots, warn = game_read(text)
        ck.expect(not warn, 'conf-syntax:' + key, lambda: 'unusable line %r' % warn[0], rep)
        n = len(man.atlas)
        if not ck.expect(len(slots) == n, 'conf-count:' + key, lambda: '%d slots in the file, %d in the atlas' % (len(slots), n), rep):
            return
        ck.expect(slots[0]['maps'] == {'c': 'textures/sky.png'} and slots[1]['maps'] == {'c': 'textures/default.png'}, 'conf-builtin:' + key,
                  lambda: 'slots 0 and 1 are %r' % (slots[:2],), rep)
        for i in range(2, n):
            tex, s = man.atlas[i], slots[i]
            what = type(tex).__name__
            want = {}
            if isinstance(tex, basetex.SimpleColourTex):
                want = {'c': tex.basepath + '/empty.png'}
                colour = (tex.r, tex.g, tex.b)
            else:
                for k in 'cnszg':
                    if getattr(tex, k, None):
                        want[k] = tex.basepath + '/' + getattr(tex, k)
                colour = getattr(tex, 'texcolor', None)
            have = {k: v for k, v in s['maps'].items() if not v.endswith('/None')}
            ck.expect(have == want, 'conf-maps:%s:%s' % (key, what), lambda: 'slot %d is for %s: %r, the file says %r' % (i, what, want, have), rep)
            same = s['colour'] is None and colour is None or s['colour'] is not None and colour is not None and \
                all(abs(a - b) < 1e-9 for a, b in zip(s['colour'], colour))
            ck.expect(same, 'conf-colour:%s:%s' % (key, what), lambda: 'slot %d (%s) has colour %r in the file, expected %r' % (i, what, s['colour'], colour), rep)
            ck.expect(s['colour'] is None or all(0 <= q <= 1 for q in s['colour']), 'conf-range:%s:%s' % (key, what),
                      lambda: 'slot %d (%s) has colour %r in the file' % (i, what, s['colour']), rep)
            ck.expect(set(want) <= set(s['maps']) and set(s['maps']) <= set(NEEDS.get(s['shader'], 'cudngsze')) | set(want), 'conf-shader:%s:%s' % (key, what),
                      lambda: 'maps %r under shader %r' % (sorted(s['maps']), s['shader']), rep)
            for prm in ('specscale', 'parallaxscale', 'glowcolor'):
                v = getattr(tex, prm, None)
                # The textures with only bump and specular maps have a fixed shininess
                if v and prm in s['params'] or v and not isinstance(tex, basetex.DefaultBumpSpecMapWorld):
                    if isinstance(tex, basetex.DefaultBumpSpecMapWorld):
                        continue
                    ck.expect(prm in s['params'] and all(abs(a - b) < 1e-9 for a, b in zip(s['params'][prm], v)), 'conf-param:%s:%s:%s' % (key, what, prm),
                              lambda: 'slot %d has %s %r, expected %r' % (i, prm, s['params'].get(prm), v), rep)
        ck.trace()

    def judge_atlas(man, slots, key, rep):
        ck.expect(sorted(man.atlas) == list(range(len(man.atlas))) and list(man.atlas) == sorted(man.atlas), 'contiguous:' + key,
                  lambda: 'slots are %r' % list(man.atlas), rep)
        used = set(slots.values()) | {0, 1}
        ck.expect(len(man.atlas) == len(used), 'count:' + key, lambda: '%d slots for %d textures' % (len(man.atlas), len(used)), rep)
        ck.expect(isinstance(man.atlas.get(0), basetex.Sky) and isinstance(man.atlas.get(1), basetex.Default), 'builtin:' + key, 'slots 0 and 1 are sky and default', rep)

    # --- operation histories on managers that look textures up by name or colour ---------
    colours = [(0, 0, 0), (1, 0, 0), (1.0, 0.0, 0.0), (0, 0, 1), (0, 1, 0), (1 / 255, 0, 0), (2 / 255, 0, 0), (0, 1 / 255, 0), (.5, .5, .5),
               (True, False, False), (0.1, 0.11, 0.1), (0.11, 0.1, 0.1)]
    names = ['sky', 'default']

    def histories(make, ops, depth, key):
        """Every sequence of look-ups up to the depth: breadth first over the slots
        allotted so far (a look-up of something known must not change anything)."""
        def replay(h):
            man = make()
            slots, seq = {('name', 'sky'): 0, ('name', 'default'): 1}, []
            for op in h:
                kind, arg = op
                ident = (kind, tuple(float(x) for x in arg) if kind == 'colour' else arg)
                got = man.get(arg) if kind == 'name' else man.get_colour(*arg)
                seq.append(got)
                rep = {'manager': key, 'history': h}
                if ident in slots:
                    ck.expect(got == slots[ident], 'same:' + key, lambda: '%r had slot %r, now %r' % (arg, slots[ident], got), rep)
                else:
                    ck.expect(type(got) is int and got == len(set(slots.values())), 'new:' + key,
                              lambda: '%r got slot %r, %d are in use' % (arg, got, len(set(slots.values()))), rep)
                    slots[ident] = got
                ck.step()
            return man, slots

        def look(h):
            rep = {'manager': key, 'history': h}
            ok, r = ck.guard('lookup:' + key, lambda: replay(h), rep)
            if not ok:
                return None
            man, slots = r
            judge_atlas(man, slots, key, rep)
            for (kind, arg), s in slots.items():
                tex = man.atlas.get(s)
                if kind == 'colour':
                    ck.expect((tex.r, tex.g, tex.b) == arg, 'colour:' + key, lambda: 'slot %d of %r has colour %r' % (s, arg, (tex.r, tex.g, tex.b)), rep)
                else:
                    ck.expect(type(tex) is type(man.texref[arg]) if arg in man.texref else type(tex).__name__.lower() == arg, 'name:' + key, lambda: 'slot %d of %r is %s' % (s, arg, type(tex).__name__), rep)
            return slots

        seen, layer = set(), [()]
        for d in range(depth + 1):
            nxt = []
            for h in layer:
                slots = look(h)
                if slots is None:
                    return
                k = tuple(sorted(slots.items(), key=repr))
                if not ck.state((key, k)):
                    continue
                seen.add(k)
                if d == depth or len(h) == 2:
                    man, _ = replay(h)
                    judge_conf(man, key, {'manager': key, 'history': h})
                if d < depth:
                    nxt.extend(h + (op,) for op in ops)
            layer = nxt

    histories(T.AutomatedMagicaTextureManager, [('colour', c) for c in colours] + [('name', 'default')], 4 if ck.thorough else 3, 'colours')

    def aliased():
        # a theme of one's own: names that are not those of the classes
        man = T.MinecraftThemedTextureManager()
        for alias, n in (('alias', 'stone'), ('again', 'stone'), ('Roof Tile', 'dirt'), ('gold2', 'gold')):
            man.texref[alias] = type(man.texref[n])() if not isinstance(man.texref[n], type) else man.texref[n]
        return man
    histories(aliased, [('name', n) for n in ('alias', 'stone', 'again', 'Roof Tile', 'gold2', 'dirt')], 4 if ck.thorough else 3, 'aliases')

    def named(cls, some):
        return [('name', n) for n in some] + [('name', 'sky')]
    histories(T.MinecraftThemedTextureManager, named(T.MinecraftThemedTextureManager, ['dirt', 'stone', 'gold', 'treeside', 'wood']), 4 if ck.thorough else 3, 'minecraft')
    histories(T.PrimaryThemedTextureManager, named(T.PrimaryThemedTextureManager, ['red', 'gray', 'darkgray', 'cyan']), 4 if ck.thorough else 3, 'primary')
    histories(T.PaperThemedTextureManager, named(T.PaperThemedTextureManager, ['paper1', 'paper2', 'paper7']), 3, 'paper')
    histories(T.DefaultThemedTextureManager, named(T.DefaultThemedTextureManager, ['tex4', 'tex9', 'tex92', 'tex123', 'tex418', 'tex582', 'tex504', 'tex161']), 3, 'dull')

    # --- all colours of a channel are told apart, in one growing atlas ---------------------
    man = T.AutomatedMagicaTextureManager()
    slots = {}
    grid = [0, 1, 2, 3, 16, 51, 85, 127, 128, 170, 200, 254, 255] if not ck.thorough else list(range(0, 256, 17)) + [1, 2, 127, 128, 254]
    want = [c for k in range(256) for c in ((k, 0, 0), (0, k, 0), (0, 0, k), (k, k, k))] + list(itertools.product(grid, repeat=3))
    for c in want + want[::-7]:
        got = man.get_colour(*[x / 255 for x in c])
        if c in slots:
            ck.expect(got == slots[c], 'sweep-same', lambda: '%r had slot %r, now %r' % (c, slots[c], got))
        else:
            ck.expect(got == len(slots) + 2, 'sweep-new', lambda: '%r got slot %r, %d are in use' % (c, got, len(slots) + 2))
            slots[c] = got
        ck.step()
    for c, s in slots.items():
        t = man.atlas[s]
        ck.expect((t.r, t.g, t.b) == tuple(x / 255 for x in c), 'sweep-colour', lambda: 'slot of %r has colour %r' % (c, (t.r, t.g, t.b)))
    ck.state(('sweep', len(slots)))
    judge_conf(man, 'sweep', {'colours': len(slots)})

    def shipped(t):
        # not the base classes the themes are made from
        return type(t).__module__ != 'redeclipse.textures.basetex' and (isinstance(t, basetex.SimpleColourTex) or getattr(t, 'c', None))

    # --- themes: every category, every random answer --------------------------------------
    themed = [('minecraft', T.MinecraftThemedTextureManager), ('dull', T.DefaultThemedTextureManager), ('paper', T.PaperThemedTextureManager), ('primary', T.PrimaryThemedTextureManager)]
    lists = {'generic': 'GenericMaterial', 'column': 'ColumnMaterial', 'floor': 'FloorMaterial', 'wall': 'WallMaterial', 'accent': 'AccentMaterial', 'no such category': 'GenericMaterial'}
    picks = 0
    for key, cls in themed:
        for cat in CATS:
            seen = set()
            rep = {'theme': key, 'category': cat}
            material = list(getattr(cls().theme, lists[cat]))

            def one(ctl):
                man = cls()
                with ck.limit(20):
                    a = man.get_c(cat)
                return man, a
            gen = harness.explore(one, 1)
            while True:
                ok, r = ck.guard('pick:%s:%s' % (key, cat), lambda: next(gen, None), rep)
                if not ok or r is None:
                    break
                ctl, (man, a) = r
                picks += 1
                ck.step()
                if not ck.expect(type(a) is int and a in man.atlas, 'slot:%s:%s' % (key, cat), lambda: 'get_c(%r) gives %r, which is no slot' % (cat, a), rep):
                    break
                name = type(man.atlas[a]).__name__.lower()
                seen.add(name)
                ck.expect(name in material, 'theme:%s:%s' % (key, cat), lambda: 'get_c(%r) of %s chose %s' % (cat, key, name), rep)
                ck.expect(len(man.atlas) == 3, 'one-slot:%s:%s' % (key, cat), lambda: 'one look-up took %d slots' % (len(man.atlas) - 2), rep)
                if ctl.taken in ([], [0]):
                    judge_conf(man, '%s-%s' % (key, cat), rep)
            else:
                pass
            ck.expect(seen >= set(material), 'reach:%s:%s' % (key, cat), lambda: '%s can never be chosen' % sorted(set(material) - seen), rep)
            ck.state((key, cat, tuple(sorted(seen))))
        # every texture of the theme, all in one file, forwards and backwards
        for order in (1, -1):
            man = cls()
            for n in sorted(man.texref)[::order]:
                if shipped(man.texref[n]) or n in ('sky', 'default'):
                    man.get(n)
            judge_conf(man, key + '-all', {'theme': key, 'order': order})
        # shipped files exist
        base = os.path.dirname(os.path.realpath(T.__file__))
        man = cls()
        for n, t in sorted(man.texref.items()):
            if not shipped(t):
                continue
            fs = list(t.files())
            for f in fs:
                ck.expect(f and os.path.exists(os.path.join(base, t.srcpath, f)), 'file:%s' % f, lambda: '%s needs %s/%s' % (n, t.srcpath, f))
                ck.step()
            if fs:
                # a texture that ships files ships all it names
                named_ = {getattr(t, k) for k in 'cnszg' if getattr(t, k, None)} if not isinstance(t, basetex.SimpleColourTex) else {'empty.png'}
                ck.expect(set(fs) == named_, 'files:' + n, lambda: '%s ships %r but names %r' % (n, sorted(fs), sorted(named_)))
    ck.extra['theme_picks'] = picks

    # --- the colour managers' categories -------------------------------------------------------
    man = T.AutomatedMagicaTextureManager()
    first = {c: man.get_c(c) for c in CATS}
    ck.expect(len(set(first.values())) == len(CATS), 'auto:distinct', lambda: 'categories share slots: %r' % first)
    ck.expect({c: man.get_c(c) for c in CATS} == first and len(man.atlas) == 2 + len(CATS), 'auto:stable', 'categories keep their slots')
    judge_conf(man, 'auto', {})

    def puke(ctl):
        man = T.RainbowPukeTextureManager()
        return man, [man.get_colour(.1, .2, .3), man.get_c('floor'), man.get_colour(1, 0, 0)]
    for ctl, (man, got) in harness.explore(puke, 3 if ck.thorough else 2, cap=20000 if ck.thorough else 4000):
        cols = {}
        for s in got:
            ck.expect(s in man.atlas, 'puke:slot', lambda: 'slot %r does not exist' % s, {'answers': ctl.taken})
            t = man.atlas[s]
            cols.setdefault((t.r, t.g, t.b), set()).add(s)
        ck.expect(all(len(v) == 1 for v in cols.values()) and len(man.atlas) == 2 + len(cols), 'puke:shared',
                  lambda: 'equal colours in different slots: %r' % cols, {'answers': ctl.taken})
        if ck.state(('puke', tuple(sorted(cols)))):
            judge_conf(man, 'puke', {'answers': ctl.taken})
        ck.step()

    for cat in CATS:
        def hue(ctl):
            man = T.RainbowPukeTextureManager()
            man.get_c(cat)
            return man
        for ctl, man in harness.explore(hue, 1, cap=70):
            judge_conf(man, 'puke-' + cat, {'answers': ctl.taken})
            ck.step()

    # --- textures of one's own, made from every base class ------------------------------------
    own = [(b, {k: 'own_%s.png' % k for k in maps}, ships) for b, maps, ships in (
        ('SimpleTex', 'c', True), ('BumpSpecMapWorld', 'cns', True), ('DefaultBumpSpecMapWorld', 'cns', False),
        ('BumpSpecMapParallaxWorld', 'cnsz', True), ('DefaultBumpSpecMapParallaxWorld', 'cnsz', False),
        ('BumpSpecMapParallaxGlowWorld', 'cnszg', True), ('DefaultBumpSpecMapParallaxGlowWorld', 'cnszg', False)) if hasattr(basetex, b)]
    optional = {'texcolor': (.25, .5, 1.), 'specscale': (.1, .2, .3, .4), 'parallaxscale': (.06, -.03, 0., 0.), 'glowcolor': (1., .5, .25, 0.)}
    mans = []
    for base_, maps, ships in own:
        cls = getattr(basetex, base_)
        has = [o for o in optional if hasattr(cls, o)]
        for given in (g for k in range(len(has) + 1) for g in itertools.combinations(has, k)):
            name = 'Own%s%s' % (base_, ''.join(given))
            tex = type(name, (cls,), dict(maps, scale=1, **{g: optional[g] for g in given}))()
            rep = {'base': base_, 'settings': given}
            ok, fs = ck.guard('own-files:' + base_, lambda: list(tex.files()), rep)
            if ok:
                ck.expect(sorted(fs) == (sorted(maps.values()) if ships else []), 'own-files:' + base_, lambda: 'ships %r, names %r' % (fs, maps), rep)
            ck.state(('own', name))
            ck.step()
            mans.append((name, tex))
    for order in (1, -1):
        man = T.MinecraftThemedTextureManager()
        for name, tex in mans[::order]:
            man.texref[name] = tex
            man.get(name)
            man.get('stone')
        judge_conf(man, 'own', {'order': order})
    for name, tex in mans:
        for other in mans[::5]:
            man = T.PaperThemedTextureManager()
            man.texref.update((other, (name, tex)))
            for k in (name, 'paper1', other[0]):
                man.get(k)
            judge_conf(man, 'own', {'textures': [name, 'paper1', other[0]]})

    # --- copying: the files of all used textures and no others, each under its own name --------
    import shutil
    from mc.harness import Escape
    base = os.path.dirname(os.path.realpath(T.__file__))
    for key, cls in themed + [('colours', T.AutomatedMagicaTextureManager)]:
        man = cls()
        use = sorted(n for n in man.texref if shipped(man.texref[n]))
        if key == 'colours':
            man.get_colour(0, 0, 1), man.get_colour(1, 0, 0)
        for part in ([], use[:1], use[1:3], use):
            for n in part:
                man.get(n)
            want = {(os.path.join(base, t.srcpath, f), f) for t in man.atlas.values() for f in t.files()}
            got, made, homeless = set(), set(), []
            real = {n: getattr(shutil, n) for n in ('copy', 'copy2', 'copyfile')}
            mk, mk1 = os.makedirs, os.mkdir

            def copied(a, b, **k):
                b = os.path.realpath(b)
                if b in made or os.path.isdir(b):
                    b = os.path.join(b, os.path.basename(a))
                if os.path.dirname(b) not in made and not os.path.isdir(os.path.dirname(b)):
                    homeless.append(b)
                got.add((os.path.realpath(a), os.path.basename(b)))
                return b

            def mkdirs(path, *a, **k):
                made.add(os.path.realpath(path))
            try:
                for n in real:
                    setattr(shutil, n, copied)
                os.makedirs = os.mkdir = mkdirs
                try:
                    man.copy_data()
                except Escape:
                    break       # copies by other means than those with a stand-in here
            finally:
                for n in real:
                    setattr(shutil, n, real[n])
                os.makedirs, os.mkdir = mk, mk1
            ck.expect(not homeless, 'copy-dir:' + key, lambda: '%s copied before there is such a directory' % homeless[0], {'theme': key, 'used': part})
            ck.expect({(os.path.realpath(a), b) for a, b in want} == got, 'copy:' + key, lambda: 'copied %r, the textures need %r' % (sorted(got), sorted(want)), {'theme': key, 'used': part})
            ck.state(('copy', key, tuple(part)))
            ck.step()
