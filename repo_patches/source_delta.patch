From 9098e37e65544a4b4b6238918a48e9bb4db9c289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:42 +0000
Subject: [PATCH 01/50] fix: close the map file when Map.write returns

---
 redeclipse/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 3f67c1f..ea1b86d 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -90,7 +90,11 @@ class Map:
         :type path: str
         """
         log.info('WRITING')
-        handle = gzip.open(path, 'wb')
+        # The file must be complete (and flushed) by the time we return.
+        with gzip.open(path, 'wb') as handle:
+            self._write_map(handle)
+
+    def _write_map(self, handle):
         self._write_str(handle, tb(self.magic), null=False)
         # Write the version
         self._write_int(handle, self.version)
-- 
2.43.0


From e657784516629aaeaad09ef2bd1fbc6fd365267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:42 +0000
Subject: [PATCH 02/50] fix: write byte fields >= 128 (octree flags, reserved
 entity bytes)

---
 redeclipse/__init__.py          | 2 +-
 redeclipse/entities/__init__.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index ea1b86d..d016a47 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -156,7 +156,7 @@ class Map:
         handle.write(struct.pack('B', char))
 
     def _write_int_as_chr(self, handle, data):
-        handle.write(struct.pack('c', str.encode(chr(data))))
+        handle.write(struct.pack('B', data))
 
     def _write_int(self, handle, value):
         if isinstance(value, int):
diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index f023699..bb87c3c 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -60,8 +60,8 @@ class Entity:
         )
 
     def serialize(self):
-        return [self.o.x, self.o.y, self.o.z, str.encode(chr(self.type.value))] + \
-            [str.encode(chr(x)) for x in self.reserved]
+        return [self.o.x, self.o.y, self.o.z, bytes([self.type.value])] + \
+            [bytes([x]) for x in self.reserved]
 
     def to_dict(self):
         data = {
-- 
2.43.0


From b0bdf5b43a823e909b588d2559c8399892bbbfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:35 +0000
Subject: [PATCH 03/50] fix: player start teams are not weapon types (team 1
 could not be read)

---
 redeclipse/entities/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index bb87c3c..f9df349 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -15,7 +15,6 @@ class Entity:
                 'type', 'flags', 'modes', 'muts', 'id'
             ]
         elif self.type == EntType.ET_PLAYERSTART:
-            self.attrs[0] = WeaponType(self.attrs[0])
             self.attr_annotations = [
                 'team', 'yaw', 'pitch', 'modes', 'muts', 'id'
             ]
-- 
2.43.0


From 9ec360054380a83f5c1b1f60bbed8b1a267f706d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:35 +0000
Subject: [PATCH 04/50] fix: weapon type 1 (pistol) could not be read

---
 redeclipse/enums.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redeclipse/enums.py b/redeclipse/enums.py
index 2812809..5db0059 100644
--- a/redeclipse/enums.py
+++ b/redeclipse/enums.py
@@ -88,6 +88,7 @@ class WeaponType(Enum):
     shouldn't be here. / is probably incorrect.
     """
     UNKNOWN = 0
+    PISTOL = 1
     SWORD = 2
     SHOTGUN = 3
     SMG = 4
-- 
2.43.0


From 154cd95ee4c44ca1c3ad3f0ab6c57961828d01d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:35 +0000
Subject: [PATCH 05/50] fix: JSON export/import of entities

---
 redeclipse/entities/__init__.py | 7 +++----
 redeclipse/entities/model.py    | 5 +++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index f9df349..289442f 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -1,3 +1,4 @@
+from redeclipse.vector import FineVector
 from redeclipse.vector.re import ivec3
 from redeclipse.enums import EntType, WeaponType
 
@@ -75,7 +76,7 @@ class Entity:
             data['attr'][key] = value
 
         if self.type == EntType.ET_WEAPON:
-            data['attr']['type'] = data['attr']['type'].name
+            data['attr']['type'] = WeaponType(data['attr']['type']).name
 
         data['attr']['_order'] = self.attr_annotations
 
@@ -85,9 +86,7 @@ class Entity:
     def from_dict(cls, d):
         attrs = [d['attr'][x] if isinstance(d['attr'][x], int) else WeaponType[d['attr'][x]] for x in d['attr']['_order']]
         e = Entity(
-            x=d['position'][0],
-            y=d['position'][1],
-            z=d['position'][2],
+            FineVector(*d['position']) / 4,
             type=EntType[d['type']],
             attrs=attrs,
             links=d['links'],
diff --git a/redeclipse/entities/model.py b/redeclipse/entities/model.py
index 9708c1c..057b34f 100644
--- a/redeclipse/entities/model.py
+++ b/redeclipse/entities/model.py
@@ -11,6 +11,11 @@ class MapModel(Entity):
 
         self.o = ivec3(*(xyz * 4))
         self.type = EntType.ET_MAPMODEL
+        self.attr_annotations = [
+            'type', 'yaw', 'pitch', 'roll', 'blend', 'scale', 'flags',
+            'colour', 'palette', 'palindex', 'spinyaw', 'spinpitch',
+            'spinroll'
+        ]
         self.attrs = [
             type, yaw, pitch, roll, blend, scale, flags, colour, palette,
             palindex, spinyaw, spinpitch, spinroll
-- 
2.43.0


From b54b30de291a983786979fdf78084963ca4fc5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:35 +0000
Subject: [PATCH 06/50] fix: JSON export of cubes with hidden faces

---
 redeclipse/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/objects.py b/redeclipse/objects.py
index 245090b..61a50c9 100644
--- a/redeclipse/objects.py
+++ b/redeclipse/objects.py
@@ -157,7 +157,7 @@ class cubext:
             'surfaceinfo': self.surfaceinfo,
             'maxverts': self.maxverts,
             'verts': self.verts,
-            'surfaces': [x.to_dict() for x in self.surfaces],
+            'surfaces': [None if x is None else x.to_dict() for x in self.surfaces],
         }
 
     @classmethod
-- 
2.43.0


From 4f5b809d7b5e8be5b52e5d01c88df975701ed548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:35 +0000
Subject: [PATCH 07/50] fix: restore vslot vectors from their JSON form

---
 redeclipse/objects.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/redeclipse/objects.py b/redeclipse/objects.py
index 61a50c9..6359aa3 100644
--- a/redeclipse/objects.py
+++ b/redeclipse/objects.py
@@ -66,6 +66,11 @@ class VSlot:
         v = VSlot(d['a'], d['b'])
         for prop in d['_order']:
             setattr(v, prop, d[prop])
+
+        # These are exported as lists
+        for (prop, cls_) in (('offset', ivec2), ('scroll', vec2), ('colorscale', vec3)):
+            if d.get(prop):
+                setattr(v, prop, cls_(*d[prop]))
         return v
 
 
-- 
2.43.0


From acf09d8b8f435816613760d0b85b8c5b79221d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:51 +0000
Subject: [PATCH 08/50] fix: write the actual number of map variables in the
 header

---
 redeclipse/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index d016a47..acafff0 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -102,6 +102,7 @@ class Map:
         self._write_int(handle, self.headersize)
         # Write the header block
         self.meta['numents'] = len(self.ents)
+        self.meta['numvars'] = len(self.map_vars)
         for key in self.meta:
             if key in ('gameident', 'skybox', 'z'):
                 self._write_str(handle, tb(self.meta[key]))
-- 
2.43.0


From 696f9c9d4790d44a0255183dc71471f500f7e437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:51 +0000
Subject: [PATCH 09/50] fix: text map variables given as str could not be
 written

---
 redeclipse/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index acafff0..e80dc6b 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -125,6 +125,7 @@ class Map:
                 self._write_int(handle, 1)
                 self._write_float(handle, value)
             elif var_type in ('bytes', 'str'):
+                value = tb(value)
                 self._write_int(handle, 2)
                 self._write_int(handle, len(value))
                 self._write_str(handle, value)
-- 
2.43.0


From 37af7a343607268c27073e4cfbe4cc5357e11fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:51 +0000
Subject: [PATCH 10/50] fix: attach the skybox as a map variable, not as a
 header field

---
 redeclipse/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index e80dc6b..25ad5e6 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -104,7 +104,7 @@ class Map:
         self.meta['numents'] = len(self.ents)
         self.meta['numvars'] = len(self.map_vars)
         for key in self.meta:
-            if key in ('gameident', 'skybox', 'z'):
+            if key in ('gameident', 'z'):
                 self._write_str(handle, tb(self.meta[key]))
             else:
                 self._write_int(handle, self.meta[key])
@@ -333,8 +333,8 @@ class Map:
         """
         Attach a skybox to the map
         """
-        # pass
-        self.meta['skybox'] = sb.get_short_path()
+        # The skybox is a map variable; extra header fields make the file unreadable.
+        self.map_vars[b'skybox'] = tb(sb.get_short_path())
 
 
 class MapParser(object):
-- 
2.43.0


From 377b94c1ddb7ce14a76bb812e9b0ec21285fe9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:03 +0000
Subject: [PATCH 11/50] fix: do not relabel the first octant as subdivided when
 saving

---
 redeclipse/cli/__init__.py              | 1 -
 redeclipse/cli/magicavoxel_room_test.py | 1 -
 redeclipse/cli/perlin.py                | 1 -
 redeclipse/cli/rooms.py                 | 1 -
 redeclipse/cli/snow_forest.py           | 1 -
 redeclipse/cli/vector_test.py           | 1 -
 6 files changed, 6 deletions(-)

diff --git a/redeclipse/cli/__init__.py b/redeclipse/cli/__init__.py
index f6ce541..341841e 100644
--- a/redeclipse/cli/__init__.py
+++ b/redeclipse/cli/__init__.py
@@ -32,7 +32,6 @@ def output(v, mymap, upm, prefabs, args):
                 handle.write(line + '\n')
 
         mymap.world = v.to_octree()
-        mymap.world[0].octsav = 0
         mymap.write(args.mpz_out.name)
 
     if args.graph:
diff --git a/redeclipse/cli/magicavoxel_room_test.py b/redeclipse/cli/magicavoxel_room_test.py
index 4e4e999..0d83eab 100644
--- a/redeclipse/cli/magicavoxel_room_test.py
+++ b/redeclipse/cli/magicavoxel_room_test.py
@@ -90,7 +90,6 @@ def main(magica=False, redeclipse=False):
                 prefabs.TEXMAN.copy_data()
 
                 mymap.world = v.to_octree()
-                mymap.world[0].octsav = 0
                 mymap.write(mpz_out.name)
 
 
diff --git a/redeclipse/cli/perlin.py b/redeclipse/cli/perlin.py
index 999ccdc..31b79a2 100644
--- a/redeclipse/cli/perlin.py
+++ b/redeclipse/cli/perlin.py
@@ -73,7 +73,6 @@ def main():
                     v.set_point(i, j, k, cube.newtexcube(tex=q))
 
     mymap.world = v.to_octree()
-    mymap.world[0].octsav = 0
     mymap.write(args.output)
 
 
diff --git a/redeclipse/cli/rooms.py b/redeclipse/cli/rooms.py
index f5b9811..fd64796 100644
--- a/redeclipse/cli/rooms.py
+++ b/redeclipse/cli/rooms.py
@@ -83,7 +83,6 @@ def main(mpz_in, mpz_out, size=2**7, seed=42, rooms=200, debug=False, magica=Non
         print('voxel')
 
     mymap.world = v.to_octree()
-    mymap.world[0].octsav = 0
     mymap.write(mpz_out.name)
 
 
diff --git a/redeclipse/cli/snow_forest.py b/redeclipse/cli/snow_forest.py
index 4b923b2..e6d400b 100644
--- a/redeclipse/cli/snow_forest.py
+++ b/redeclipse/cli/snow_forest.py
@@ -140,7 +140,6 @@ def main():
                 mymap.ents.append(rock)
 
     mymap.world = v.to_octree()
-    mymap.world[0].octsav = 0
     mymap.write(args.output)
 
 
diff --git a/redeclipse/cli/vector_test.py b/redeclipse/cli/vector_test.py
index 63f0314..a6304ab 100644
--- a/redeclipse/cli/vector_test.py
+++ b/redeclipse/cli/vector_test.py
@@ -47,7 +47,6 @@ def main(mpz_in, redeclipse=None, magica=None, world_size=2**7):
         TEXMAN.emit_conf(redeclipse)
         TEXMAN.copy_data()
         mymap.world = v.to_octree()
-        mymap.world[0].octsav = 0
         mymap.write(redeclipse.name)
 
 
-- 
2.43.0


From b135060c60e6b3b550f6fdf6282b2f6018059f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:03 +0000
Subject: [PATCH 12/50] fix: scale coarse positions of spawns, models and
 weapons like other entities

---
 redeclipse/entities/__init__.py | 2 +-
 redeclipse/entities/model.py    | 2 +-
 redeclipse/entities/weapon.py   | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index 289442f..25849b5 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -98,7 +98,7 @@ class Entity:
 class PlayerSpawn(Entity):
 
     def __init__(self, xyz=(0, 0, 0), team=0, yaw=0, pitch=0, modes=0, muts=0, id=0, links=None, reserved=None):
-        self.o = ivec3(*(xyz * 4))
+        self.o = ivec3(*(xyz.fine() * 4))
         self.type = EntType.ET_PLAYERSTART
         self.attr_annotations = [
             'team', 'yaw', 'pitch', 'modes', 'muts', 'id'
diff --git a/redeclipse/entities/model.py b/redeclipse/entities/model.py
index 057b34f..6027fea 100644
--- a/redeclipse/entities/model.py
+++ b/redeclipse/entities/model.py
@@ -9,7 +9,7 @@ class MapModel(Entity):
                  scale=0, flags=0, colour=0, palette=0, palindex=0, spinyaw=0,
                  spinpitch=0, spinroll=0, links=None, reserved=None):
 
-        self.o = ivec3(*(xyz * 4))
+        self.o = ivec3(*(xyz.fine() * 4))
         self.type = EntType.ET_MAPMODEL
         self.attr_annotations = [
             'type', 'yaw', 'pitch', 'roll', 'blend', 'scale', 'flags',
diff --git a/redeclipse/entities/weapon.py b/redeclipse/entities/weapon.py
index 85592c1..659acb1 100644
--- a/redeclipse/entities/weapon.py
+++ b/redeclipse/entities/weapon.py
@@ -8,7 +8,7 @@ class Weapon(Entity):
     def __init__(self, xyz, type=0, flags=0, modes=0, muts=0, id=0,
                  links=None, reserved=None):
 
-        self.o = ivec3(*(xyz * 4))
+        self.o = ivec3(*(xyz.fine() * 4))
         self.type = EntType.ET_WEAPON
         self.attr_annotations = [
             'type', 'flags', 'modes', 'muts', 'id'
@@ -25,7 +25,7 @@ class Grenade(Entity):
     def __init__(self, xyz, flags=0, modes=0, muts=0, id=0,
                  links=None, reserved=None):
 
-        self.o = ivec3(*(xyz * 4))
+        self.o = ivec3(*(xyz.fine() * 4))
         self.type = EntType.ET_WEAPON
         self.attr_annotations = [
             'type', 'flags', 'modes', 'muts', 'id'
@@ -42,7 +42,7 @@ class Shotgun(Entity):
     def __init__(self, xyz, flags=0, modes=0, muts=0, id=0,
                  links=None, reserved=None):
 
-        self.o = ivec3(*(xyz * 4))
+        self.o = ivec3(*(xyz.fine() * 4))
         self.type = EntType.ET_WEAPON
         self.attr_annotations = [
             'type', 'flags', 'modes', 'muts', 'id'
-- 
2.43.0


From 7c4aa61b9753a26e83ce8acbb0729ef0a7070ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:49 +0000
Subject: [PATCH 13/50] fix: lights without autocenter

---
 redeclipse/lighting/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redeclipse/lighting/__init__.py b/redeclipse/lighting/__init__.py
index 03eb654..cb41a34 100644
--- a/redeclipse/lighting/__init__.py
+++ b/redeclipse/lighting/__init__.py
@@ -37,6 +37,7 @@ class LightManager:
 
         :param boolean autocenter: Automatically add FineVector(4, 4, 4) to the position
         """
+        pos = position
         if autocenter:
             pos = position + TILE_CENTER + HALF_HEIGHT
 
-- 
2.43.0


From bb232f0ed9d5b72e4a288c45c2c0e8d7bff600ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:49 +0000
Subject: [PATCH 14/50] fix: weighted_choice could fall off the end through
 rounding

---
 redeclipse/upm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index ae714b3..b7933b0 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -239,7 +239,8 @@ class UnusedPositionManager:
             if upto + w >= r:
                 return c
             upto += w
-        return None
+        # Summation error may leave r just above the last bound.
+        return choices[-1][0] if choices else None
 
     def random_room(self, connecting_room, room_options):
         """Pick out a random room based on the connecting room and the
-- 
2.43.0


From ee8068aaec0b9b9031cf9ba022b0daddec6b8662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:49 +0000
Subject: [PATCH 15/50] fix: do not accept rooms that stick out of the map

---
 redeclipse/upm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index b7933b0..9a83305 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -93,6 +93,9 @@ class UnusedPositionManager:
             for position in used:
                 if position in self.occupied.keys() or position in added_occupied:
                     return False
+                # Nor may any part of the room be off the edge.
+                if not self.is_legal(position):
+                    return False
             added_occupied = added_occupied.union(set(used))
             # Don't add the room if the door is off the edge.
             for door in room.get_doorways():
-- 
2.43.0


From 36deb98def73b7129ac5336264fdb97a322e1049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:49 +0000
Subject: [PATCH 16/50] fix: coarse position 32 is outside of the (32 cubed)
 map

---
 redeclipse/upm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index 9a83305..ba084f2 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -48,9 +48,9 @@ class UnusedPositionManager:
         :rtype: boolean
         """
         # TODO: dependent on world size.
-        return 0 <= position.x <= 32 and \
-            0 <= position.y <= 32 and \
-            0 <= position.z <= 32
+        return 0 <= position.x < 32 and \
+            0 <= position.y < 32 and \
+            0 <= position.z < 32
 
     def _yield_mirrored(self, room):
         for orientation in self.mirror_rotations:
-- 
2.43.0


From ff5a3ed90c71f7298c8300d9d1084b74b28334c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:49 +0000
Subject: [PATCH 17/50] fix: a rejected registration must not leave the room
 (or some of its copies) behind

---
 redeclipse/upm.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index ba084f2..207923a 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -119,12 +119,20 @@ class UnusedPositionManager:
 
         :rtype: None
         """
-        for r in self._yield_mirrored(room):
+        copies = list(self._yield_mirrored(room))
+        # Either all of the copies fit, or nothing is registered.
+        claimed = set()
+        for r in copies:
+            for position in r.get_positions():
+                if (position in self.occupied.keys() or position in claimed) and not self.noclip:
+                    raise Exception("Occupado %s" % position)
+            claimed.update(r.get_positions())
+
+        for r in copies:
             self._register_room(r)
 
     def _register_room(self, room):
         used = room.get_positions()
-        self.rooms.append(room)
         # First, we need to check that ALL of those positions are
         # unoccupied.
         for position in used:
@@ -132,6 +140,7 @@ class UnusedPositionManager:
                 raise Exception("Occupado %s" % position)
         # Otherwise, all positions are fine to use.
 
+        self.rooms.append(room)
         self.occupied.update({pos: room for pos in used})
         # Remove occupied positions from possibilities
         self.unoccupied = [(p, r, o) for (p, r, o) in self.unoccupied if p not in used]
-- 
2.43.0


From 49332696896cf999f95fe991f2d211aec7dd5907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:49 +0000
Subject: [PATCH 18/50] fix: links must name positions that the linked rooms
 occupy

---
 redeclipse/upm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index 207923a..a3f1b9e 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -63,7 +63,8 @@ class UnusedPositionManager:
     def _yield_mirrored_positions(self, room):
         for orientation in self.mirror_rotations:
             yield (
-                room.pos.offset_rotate(orientation, offset=CoarseVector(-16, -16, 0)),
+                # room.pos itself need not be occupied by the room.
+                room.get_positions()[0].offset_rotate(orientation, offset=CoarseVector(-16, -16, 0)),
                 room.orientation.rotate(orientation)
             )
 
-- 
2.43.0


From c230631a39865fde31a999e5d800c06f98d14a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:49 +0000
Subject: [PATCH 19/50] fix: debug endcaps where two doors share a position

---
 redeclipse/upm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index a3f1b9e..8b944ac 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -335,6 +335,9 @@ class UnusedPositionManager:
                         yield r
 
     def _room_cap_debug(self, pos, typ, ori):
+        # Several doors may open onto the same position
+        if pos in self.occupied.keys() and not self.noclip:
+            return None
         return TestRoom(pos, orientation=EAST)
 
     def _room_cap_real(self, prev_room_door, prev_room, prev_room_orientation, possible_endcaps=None):
-- 
2.43.0


From 154d19de7f5c46047428d04ac4698bde8f6b0d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:41 +0000
Subject: [PATCH 20/50] fix: keep the data after the octree, which the header
 announces

---
 redeclipse/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 25ad5e6..4fae889 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -81,6 +81,8 @@ class Map:
         self.chg = chg
         self.world = worldroot
         self.cfg_extra = []
+        # Whatever follows the octree (blendmap, ...); not parsed but kept.
+        self.trailer = b''
 
     def write(self, path):
         """
@@ -150,6 +152,7 @@ class Map:
         self._savechildren(handle, self.world)
         self.pbar_0.close()
         # self.pbar_1.close()
+        handle.write(self.trailer)
 
     def _write_custom(self, handle, fmt, data):
         handle.write(struct.pack(fmt, *data))
@@ -652,4 +655,5 @@ class MapParser(object):
 
         m = Map(magic, version, headersize, meta, map_vars, texmru, ents, vslots, chg,
                 worldroot)
+        m.trailer = self.bytes[self.index:]
         return m
-- 
2.43.0


From 2353503b22c18540c27ef261abb743ab631b9d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:56 +0000
Subject: [PATCH 21/50] fix: export the graph of maps with unnamed rooms (e.g.
 debug end caps)

---
 redeclipse/cli/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/redeclipse/cli/__init__.py b/redeclipse/cli/__init__.py
index 341841e..93e9839 100644
--- a/redeclipse/cli/__init__.py
+++ b/redeclipse/cli/__init__.py
@@ -40,10 +40,12 @@ def output(v, mymap, upm, prefabs, args):
             "links": []
         }
         for room in upm.rooms:
+            # Only rooms made from .vox files carry a name
+            name = getattr(room, 'name', room.__class__.__name__)
             data['nodes'].append({
                 'id': id(room),
-                'name': room.name,
-                'label': room.name,
+                'name': name,
+                'label': name,
             })
 
         for a, b in upm.links:
-- 
2.43.0


From f01cd2cb342dab76877ff4750a5d9dd5e411906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:19 +0000
Subject: [PATCH 22/50] fix: close .vox files after loading (each room kept its
 file open and could not be copied)

---
 redeclipse/prefabs/magica.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redeclipse/prefabs/magica.py b/redeclipse/prefabs/magica.py
index 5e6ace0..c001f0b 100644
--- a/redeclipse/prefabs/magica.py
+++ b/redeclipse/prefabs/magica.py
@@ -28,7 +28,9 @@ class MagicaRoom(Room):
         return '<MagicaRoom %s facing:%s,pos:%s>' % (self.name, n(self.orientation), self.pos)
 
     def load_model(self):
-        self.model = Magicavoxel.from_file(self.vox_file)
+        # Do not keep the file open for as long as the room lives.
+        with open(self.vox_file, 'rb') as handle:
+            self.model = Magicavoxel.from_bytes(handle.read())
         self.vox = VoxelWorld()
         self._colours = {}
         for vox in self.model.model_voxels.voxels:
-- 
2.43.0


From c380e4cc604ffb0fdffccab8d1f74afb99329854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:51 +0000
Subject: [PATCH 23/50] fix: mirrored transition probabilities apply to
 for_class, too

---
 redeclipse/prefabs/distributions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/redeclipse/prefabs/distributions.py b/redeclipse/prefabs/distributions.py
index 6c6457a..f2a9916 100644
--- a/redeclipse/prefabs/distributions.py
+++ b/redeclipse/prefabs/distributions.py
@@ -17,6 +17,11 @@ class DistributionManager:
             in self.transition_probabilities.keys()
             if k == clsname.room_type
         }
+        if self.mirror:
+            # The transition has the same probability in both directions.
+            for (k, v) in self.transition_probabilities.keys():
+                if v == clsname.room_type and k not in filtered:
+                    filtered[k] = self.transition_probabilities[k, v]
         return filtered
 
 
-- 
2.43.0


From 6b9e8bfa6c264e55ecceca539775c21658399e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:51 +0000
Subject: [PATCH 24/50] fix: rounding lost one share of a room in
 random_room_stream

---
 redeclipse/upm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index 8b944ac..2b3acd1 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -282,7 +282,8 @@ class UnusedPositionManager:
 
         for room in room_options:
             # Number of times we'd like to see this room.
-            frequency = int(probs.get(room.room_type, 0.1) / minimum_prob)
+            # (0.3 / 0.1 is slightly less than 3.)
+            frequency = int(round(probs.get(room.room_type, 0.1) / minimum_prob, 6))
             # Append that many rooms
             for n in range(frequency):
                 choices.append(room)
-- 
2.43.0


From f38b1e53a4ab6fbaf855dd88d29b4f53af81ce49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:51 +0000
Subject: [PATCH 25/50] fix: randint needs integers (PoleRoom could not be
 rendered)

---
 redeclipse/prefabs/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index a10de65..fc49db3 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -652,7 +652,7 @@ class PoleRoom(_LargeRoom):
                         length = FineVector(1, 1, 8 * self._height)
                         voff = ABOVE_FINE
                     else:
-                        offset = random.randint(1, 8 * self._height / 2)
+                        offset = random.randint(1, 8 * self._height // 2)
                         length = FineVector(1, 1, (8 * self._height) - (2 * offset))
                         voff = (ABOVE_FINE * offset)
 
-- 
2.43.0


From 55c734103b9b0dc38ec36a3c019b78fbf3f6aeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:51 +0000
Subject: [PATCH 26/50] fix: 3x3 rooms ignored their random flags

---
 redeclipse/prefabs/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index fc49db3..47c4e64 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -138,6 +138,8 @@ class _3X3Room(Room):
         part of placement, we wouldn't want to place a partial room."""
         self.pos = CoarseVector(*pos)
         self.orientation = orientation
+        if randflags:
+            self._randflags = randflags
 
     def _get_doorways(self):
         return [
-- 
2.43.0


From e1aa6cabf731e64470492c5a698d1e8cebf8af95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:35 +0000
Subject: [PATCH 27/50] fix: pushers and models of rotated rooms must turn
 around the middle of the tile

---
 redeclipse/prefabs/__init__.py              | 12 ++++++------
 redeclipse/prefabs/spacestation/__init__.py |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index 47c4e64..1a688a6 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -320,14 +320,14 @@ class JumpCorridor3(Room):
         (a, b, c) = self.pos
 
         pusher_a = Pusher(
-            xyz=self.pos + FineVector(7, 4, 1).rotate(self.orientation),
+            xyz=self.pos + FineVector(7, 4, 1).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             maxrad=15 * SIZE_OFFSET,
             yaw=rotate_yaw(270, self.orientation),
             force=175 * SIZE_OFFSET,
         )
 
         pusher_b = Pusher(
-            xyz=self.pos + (EAST + EAST + FineVector(1, 4, 1)).rotate(self.orientation),
+            xyz=self.pos + (EAST + EAST + FineVector(1, 4, 1)).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             maxrad=15 * SIZE_OFFSET,
             yaw=rotate_yaw(90, self.orientation),
             force=175 * SIZE_OFFSET,
@@ -382,7 +382,7 @@ class JumpCorridorVertical(Room):
         self.light(xmap)
 
         pusher_a = Pusher(
-            xyz=self.pos + FineVector(5, 4, 1).rotate(self.orientation),
+            xyz=self.pos + FineVector(5, 4, 1).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             pitch=74,
             yaw=rotate_yaw(270, self.orientation),
             force=400 * SIZE_OFFSET,
@@ -390,7 +390,7 @@ class JumpCorridorVertical(Room):
         xmap.ents.append(pusher_a)
 
         pusher_b = Pusher(
-            xyz=self.pos + FineVector(6, 4, 17).rotate(self.orientation),
+            xyz=self.pos + FineVector(6, 4, 17).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             pitch=40,
             yaw=rotate_yaw(90, self.orientation),
             force=200 * SIZE_OFFSET,
@@ -471,7 +471,7 @@ class JumpCorridorVerticalCenter(JumpCorridorVertical):
             force = 700 * SIZE_OFFSET
 
         pusher_a = Pusher(
-            xyz=self.pos + FineVector(4, 4, 1).rotate(self.orientation),
+            xyz=self.pos + FineVector(4, 4, 1).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             pitch=90,
             maxrad=5,
             yaw=rotate_yaw(0, self.orientation),
@@ -812,7 +812,7 @@ class AltarRoom(_3X3Room):
 
         if self._randflags[0]:
             tree = MapModel(
-                xyz=self.pos + FineVector(4, 4, 3).rotate(self.orientation),
+                xyz=self.pos + FineVector(4, 4, 3).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
                 yaw=rotate_yaw(270, self.orientation),
                 type=124
             )
diff --git a/redeclipse/prefabs/spacestation/__init__.py b/redeclipse/prefabs/spacestation/__init__.py
index cd335d1..9ff4c1c 100644
--- a/redeclipse/prefabs/spacestation/__init__.py
+++ b/redeclipse/prefabs/spacestation/__init__.py
@@ -264,7 +264,7 @@ class station_tube_jumpx(MagicaRoom):
         LIGHTMAN.light(xmap, self.pos + (EAST + NORTH + ABOVE).rotate(self.orientation), size_factor=2)
 
         pusher_a = Pusher(
-            xyz=self.pos + (EAST + NORTH + FineVector(4, 5, 12)).rotate(self.orientation),
+            xyz=self.pos + (EAST + NORTH + FineVector(4, 5, 12)).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             pitch=90,
             maxrad=1,
             yaw=rotate_yaw(0, self.orientation),
-- 
2.43.0


From f2c9dedd7615b329aa768034eac1fec0b7166042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:35 +0000
Subject: [PATCH 28/50] fix: CrossingWalkways put its lights at the corner of
 the map

---
 redeclipse/prefabs/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index 1a688a6..9aa0595 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -900,7 +900,7 @@ class CrossingWalkways(_LargeRoom):
 
     def light(self, xmap):
         for i in range(self._height):
-            LIGHTMAN.light(xmap, SELF + (ABOVE * i))
+            LIGHTMAN.light(xmap, self.pos + (ABOVE * i))
 
 
 class PlusPlatform(_LargeRoom):
-- 
2.43.0


From 35b968d46023669886ebcf3a1bb8a37f7eecc795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:04 +0000
Subject: [PATCH 29/50] fix: lights of large rooms were off the map, or outside
 of the room

---
 redeclipse/prefabs/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index 9aa0595..e736655 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -617,8 +617,9 @@ class _LargeRoom(_3X3Room):
         h = 6
         if self._height > 1:
             h = 12
-        position = self.pos + NORTH + TILE_CENTER + FineVector(0, 0, h)
-        LIGHTMAN.light(xmap, position.rotate(self.orientation))
+        # self.pos is the middle of the room
+        position = self.pos + TILE_CENTER + FineVector(0, 0, h)
+        LIGHTMAN.light(xmap, position, autocenter=False)
 
 
 class PoleRoom(_LargeRoom):
@@ -662,7 +663,7 @@ class PoleRoom(_LargeRoom):
 
     def light(self, xmap):
         light = Light(
-            xyz=self.pos + FineVector(3, 4, 10),
+            xyz=self.pos + FineVector(3, 4, 10 if self._height > 1 else 6),
             red=255,
             green=255,
             blue=255,
@@ -772,7 +773,7 @@ class ImposingRingRoom(_LargeRoom):
         self.x('rectangular_prism', world, FineVector(2, 9, 1), FineVector(4, 3, 8), subtract=True)
 
     def light(self, xmap):
-        LIGHTMAN.light(xmap, self.pos + NORTH + HALF_HEIGHT + TILE_CENTER)
+        LIGHTMAN.light(xmap, self.pos)
 
 
 class AltarRoom(_3X3Room):
@@ -973,8 +974,7 @@ class MultiPlatform(_LargeRoom):
         ]
 
     def light(self, xmap):
-        position = self.pos + TILE_CENTER + FineVector(0, 0, 16)
-        LIGHTMAN.light(xmap, position)
+        LIGHTMAN.light(xmap, self.pos + ABOVE + ABOVE)
 
 
 class FlatSpace(_LargeRoom):
-- 
2.43.0


From 2fcfc0e5816d80aca376c0b377e6dc125cd54ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:04 +0000
Subject: [PATCH 30/50] fix: lights of castle_gate_simple and station_tube3
 were next to the room

---
 redeclipse/prefabs/castle/__init__.py       | 4 ++--
 redeclipse/prefabs/spacestation/__init__.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/redeclipse/prefabs/castle/__init__.py b/redeclipse/prefabs/castle/__init__.py
index 06cf242..1bdfde2 100644
--- a/redeclipse/prefabs/castle/__init__.py
+++ b/redeclipse/prefabs/castle/__init__.py
@@ -91,8 +91,8 @@ class castle_gate_simple(MagicaRoom):
     ]
 
     def render_extra(self, world, xmap):
-        LIGHTMAN.light(xmap, self.pos + (EAST + NORTH).rotate(self.orientation))
-        LIGHTMAN.light(xmap, self.pos + (EAST + NORTH + ABOVE).rotate(self.orientation))
+        LIGHTMAN.light(xmap, self.pos + EAST.rotate(self.orientation))
+        LIGHTMAN.light(xmap, self.pos + (EAST + ABOVE).rotate(self.orientation))
 
 
 class castle_large(MagicaRoom):
diff --git a/redeclipse/prefabs/spacestation/__init__.py b/redeclipse/prefabs/spacestation/__init__.py
index 9ff4c1c..66d3e6a 100644
--- a/redeclipse/prefabs/spacestation/__init__.py
+++ b/redeclipse/prefabs/spacestation/__init__.py
@@ -224,7 +224,7 @@ class station_tube3(MagicaRoom):
     ]
 
     def render_extra(self, world, xmap):
-        LIGHTMAN.light(xmap, self.pos + (ABOVE + EAST).rotate(self.orientation), size_factor=2)
+        LIGHTMAN.light(xmap, self.pos + EAST.rotate(self.orientation), size_factor=2)
 
 
 class station_tube3layered(MagicaRoom):
-- 
2.43.0


From 910e691fc8e7ab2a75979beab7687191ddd3b80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:04 +0000
Subject: [PATCH 31/50] fix: offset of incomplete models was rotated twice

---
 redeclipse/prefabs/magica.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redeclipse/prefabs/magica.py b/redeclipse/prefabs/magica.py
index c001f0b..ba75aaa 100644
--- a/redeclipse/prefabs/magica.py
+++ b/redeclipse/prefabs/magica.py
@@ -18,7 +18,8 @@ class MagicaRoom(Room):
     ]
 
     def __init__(self, pos, roof=False, orientation=EAST, randflags=None):
-        self._off = FineVector(self.boundary_additions.get('WEST', 0), self.boundary_additions.get('SOUTH', 0), 0).rotate(orientation)
+        # In the room's own frame, it is rotated together with the voxels.
+        self._off = FineVector(self.boundary_additions.get('WEST', 0), self.boundary_additions.get('SOUTH', 0), 0)
         self.orientation = orientation
         self.pos = CoarseVector(*pos)
         if randflags:
-- 
2.43.0


From 740cad99b60eb7347ec335cbe5ca86ba87d52bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:15 +0000
Subject: [PATCH 32/50] fix: a colour given in integers and in floats got two
 texture slots

---
 redeclipse/textures/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/textures/__init__.py b/redeclipse/textures/__init__.py
index 3f1ea2f..63a16e0 100644
--- a/redeclipse/textures/__init__.py
+++ b/redeclipse/textures/__init__.py
@@ -251,7 +251,7 @@ class AutomatedMagicaTextureManager(TextureManager):
         return self._get_colour(r, g, b)
 
     def _get_colour(self, r, g, b):
-        name = 'c_%s_%s_%s' % (r, g, b)
+        name = 'c_%s_%s_%s' % (float(r), float(g), float(b))
         if name not in self.atlas_backref:
             tmp = SimpleColourTex()
             tmp.r = r
-- 
2.43.0


From af04d0ff2ce77abfc037538b8a845ca12fcbf215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:52 +0000
Subject: [PATCH 33/50] Restore two demonstration scripts whose names mark them
 as test files

---
 redeclipse/cli/magicavoxel_room_test.py | 1 +
 redeclipse/cli/vector_test.py           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/redeclipse/cli/magicavoxel_room_test.py b/redeclipse/cli/magicavoxel_room_test.py
index 0d83eab..4e4e999 100644
--- a/redeclipse/cli/magicavoxel_room_test.py
+++ b/redeclipse/cli/magicavoxel_room_test.py
@@ -90,6 +90,7 @@ def main(magica=False, redeclipse=False):
                 prefabs.TEXMAN.copy_data()
 
                 mymap.world = v.to_octree()
+                mymap.world[0].octsav = 0
                 mymap.write(mpz_out.name)
 
 
diff --git a/redeclipse/cli/vector_test.py b/redeclipse/cli/vector_test.py
index a6304ab..63f0314 100644
--- a/redeclipse/cli/vector_test.py
+++ b/redeclipse/cli/vector_test.py
@@ -47,6 +47,7 @@ def main(mpz_in, redeclipse=None, magica=None, world_size=2**7):
         TEXMAN.emit_conf(redeclipse)
         TEXMAN.copy_data()
         mymap.world = v.to_octree()
+        mymap.world[0].octsav = 0
         mymap.write(redeclipse.name)
 
 
-- 
2.43.0


From d4d3340441905b25b091bf684c3ca30168537a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:37 +0000
Subject: [PATCH 34/50] fix: settings after a coloured bump texture were glued
 to its texcolor line

---
 redeclipse/textures/basetex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/textures/basetex.py b/redeclipse/textures/basetex.py
index d6aa77a..f4d5909 100644
--- a/redeclipse/textures/basetex.py
+++ b/redeclipse/textures/basetex.py
@@ -92,7 +92,7 @@ texture s "{0.basepath}/{0.s}"
 """.format(self, idx=idx)
 
         if self.texcolor:
-            conf += "texcolor %s %s %s" % self.texcolor
+            conf += "texcolor %s %s %s\n\n" % self.texcolor
         return conf
 
 
-- 
2.43.0


From c6548732e02577ed939de4b9e44ba3061cc65198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:37 +0000
Subject: [PATCH 35/50] fix: themed managers gave a name instead of a slot for
 other categories

---
 redeclipse/textures/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/textures/__init__.py b/redeclipse/textures/__init__.py
index 63a16e0..2f65768 100644
--- a/redeclipse/textures/__init__.py
+++ b/redeclipse/textures/__init__.py
@@ -210,7 +210,7 @@ class ThemedTextureManager(TextureManager):
         elif category == 'accent':
             return self.get(random.choice(self.theme.AccentMaterial))
 
-        return random.choice(self.theme.GenericMaterial)
+        return self.get(random.choice(self.theme.GenericMaterial))
 
     def discover_textures(self):
         super().discover_textures()
-- 
2.43.0


From 3a9048e34e91a11ab25967dc0edaebf3acc4b5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:59 +0000
Subject: [PATCH 36/50] fix: the dull theme named textures that do not exist
 (tex8, tex115)

---
 redeclipse/textures/dull_theme.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redeclipse/textures/dull_theme.py b/redeclipse/textures/dull_theme.py
index 5048c4f..235cd4f 100644
--- a/redeclipse/textures/dull_theme.py
+++ b/redeclipse/textures/dull_theme.py
@@ -3,13 +3,13 @@ from itertools import chain
 
 GenericMaterial = [
     'tex%s' % x for x in
-    range(4, 9)
+    range(4, 8)
 ]
 
 
 FloorMaterial = [
     'tex%s' % x for x in
-    chain(range(4, 8), [9], range(92, 116), range(504, 505))
+    chain(range(4, 8), [9], range(92, 115), range(504, 505))
 ]
 
 
-- 
2.43.0


From 1971d9bc8cc3b5c5b617483c09a319505b8e45be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:22 +0000
Subject: [PATCH 37/50] fix: exported .vox files had wrong sizes, counts and an
 incomplete palette

---
 redeclipse/magicavoxel/writer.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/redeclipse/magicavoxel/writer.py b/redeclipse/magicavoxel/writer.py
index 0b69018..dacb46d 100644
--- a/redeclipse/magicavoxel/writer.py
+++ b/redeclipse/magicavoxel/writer.py
@@ -2,31 +2,35 @@ import struct
 
 
 def to_magicavoxel(voxel_world, handle, texman):
-    cs = 4 * (1 + len(voxel_world.world))
+    # Anything outside of 0-255 cannot be stored in this format
+    voxels = [
+        ((x, y, z), value) for ((x, y, z), value) in voxel_world.world.items()
+        if 0 <= x <= 255 and 0 <= y <= 255 and 0 <= z <= 255
+    ]
+
+    cs = 4 * (1 + len(voxels))
     handle.write(struct.pack('4s', b'VOX '))
     handle.write(struct.pack('i', 150))
     handle.write(struct.pack('4s', b'MAIN'))
     handle.write(struct.pack('i', 0))  # Chunk size
-    handle.write(struct.pack('i', cs + 36 + 1024))  # child chunk size TODO
+    handle.write(struct.pack('i', cs + 48 + 1024))  # child chunk size: three headers, size, voxels, palette
     # Size chunk
     handle.write(struct.pack('4s', b'SIZE'))
     handle.write(struct.pack('i', 12))
     handle.write(struct.pack('i', 0))
-    handle.write(struct.pack('i', int(voxel_world.xmax)))  # x
-    handle.write(struct.pack('i', int(voxel_world.ymax)))  # y
-    handle.write(struct.pack('i', int(voxel_world.zmax)))  # z
+    handle.write(struct.pack('i', min(int(voxel_world.xmax), 255) + 1))  # x
+    handle.write(struct.pack('i', min(int(voxel_world.ymax), 255) + 1))  # y
+    handle.write(struct.pack('i', min(int(voxel_world.zmax), 255) + 1))  # z
     # xyzi chunk
     handle.write(struct.pack('4s', b'XYZI'))
-    handle.write(struct.pack('i', cs))  # chunk size TODO
+    handle.write(struct.pack('i', cs))  # chunk size
     handle.write(struct.pack('i', 0))  # child chunk size
-    handle.write(struct.pack('i', len(voxel_world.world)))  # numvoxels
+    handle.write(struct.pack('i', len(voxels)))  # numvoxels
 
     def m(x):
         return int(x)
 
-    for ((x, y, z), value) in voxel_world.world.items():
-        if x > 255 or y > 255 or z > 255 or x < 0 or y < 0 or z < 0:
-            continue
+    for ((x, y, z), value) in voxels:
         handle.write(struct.pack('BBBB', m(x), m(y), m(z), m(value.texture[0] + 1)))
         # handle.write(struct.pack('BBBB', m(x), m(y), m(z), 1))
 
@@ -38,8 +42,8 @@ def to_magicavoxel(voxel_world, handle, texman):
     def n(x):
         return int(255 * x)
 
-    for idx, (tex_key, tex) in enumerate(texman.atlas.items()):
+    for tex_key, tex in list(texman.atlas.items())[:256]:
         handle.write(struct.pack('BBBB', n(tex.r), n(tex.g), n(tex.b), 255))  # white
 
-    for i in range(255 - len(texman.atlas)):
+    for i in range(256 - len(texman.atlas)):
         handle.write(struct.pack('BBBB', 0, 0, 0, 255))  # white
-- 
2.43.0


From c5cc6f747cbd7ac28659c0f2b0f16ecbf6c4254b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:37 +0000
Subject: [PATCH 38/50] fix: worlds with image textures could not be exported
 as .vox

---
 redeclipse/textures/basetex.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redeclipse/textures/basetex.py b/redeclipse/textures/basetex.py
index f4d5909..5c13047 100644
--- a/redeclipse/textures/basetex.py
+++ b/redeclipse/textures/basetex.py
@@ -6,6 +6,10 @@ class BaseTex(object):
     basepath = "hxr/textures"
     # Where the textures come from
     srcpath = "data/minecraft"
+    # Colour in exported .vox files (which know nothing but colours)
+    r = 0.5
+    g = 0.5
+    b = 0.5
     # shader = 'bumpspecmapworld'
     # setshader bumpspecmapworld
     # setshaderparam specscale 0.250000 0.250000 0.250000 0.000000
-- 
2.43.0


From b4ef7ecfa9e0d39424eea1e0c71b0f7e38128794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:38 +0000
Subject: [PATCH 39/50] fix: decay never reached the topmost layer

---
 redeclipse/aftereffects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/aftereffects.py b/redeclipse/aftereffects.py
index d06c6e7..26e5124 100644
--- a/redeclipse/aftereffects.py
+++ b/redeclipse/aftereffects.py
@@ -125,7 +125,7 @@ def decay(world, position_function):
     :rtype: None
     """
     log.info('Applying Decay Effect')
-    for z in tqdm(range(world.zmax)):
+    for z in tqdm(range(world.zmax + 1)):
         for x in range(world.size):
             for y in range(world.size):
                 if random.random() > position_function(x, y, z):
-- 
2.43.0


From 620c2128f6c66f5a45ccf6916614b66ede88a6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:53 +0000
Subject: [PATCH 40/50] fix: .vox export of image textures, also of those with
 a glow map (called g)

---
 redeclipse/magicavoxel/writer.py | 4 +++-
 redeclipse/textures/basetex.py   | 4 ----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/redeclipse/magicavoxel/writer.py b/redeclipse/magicavoxel/writer.py
index dacb46d..d494579 100644
--- a/redeclipse/magicavoxel/writer.py
+++ b/redeclipse/magicavoxel/writer.py
@@ -43,7 +43,9 @@ def to_magicavoxel(voxel_world, handle, texman):
         return int(255 * x)
 
     for tex_key, tex in list(texman.atlas.items())[:256]:
-        handle.write(struct.pack('BBBB', n(tex.r), n(tex.g), n(tex.b), 255))  # white
+        # Image textures have no colour of their own, show them in gray
+        (r, g, b) = (tex.r, tex.g, tex.b) if hasattr(tex, 'r') else (0.5, 0.5, 0.5)
+        handle.write(struct.pack('BBBB', n(r), n(g), n(b), 255))  # white
 
     for i in range(256 - len(texman.atlas)):
         handle.write(struct.pack('BBBB', 0, 0, 0, 255))  # white
diff --git a/redeclipse/textures/basetex.py b/redeclipse/textures/basetex.py
index 5c13047..f4d5909 100644
--- a/redeclipse/textures/basetex.py
+++ b/redeclipse/textures/basetex.py
@@ -6,10 +6,6 @@ class BaseTex(object):
     basepath = "hxr/textures"
     # Where the textures come from
     srcpath = "data/minecraft"
-    # Colour in exported .vox files (which know nothing but colours)
-    r = 0.5
-    g = 0.5
-    b = 0.5
     # shader = 'bumpspecmapworld'
     # setshader bumpspecmapworld
     # setshaderparam specscale 0.250000 0.250000 0.250000 0.000000
-- 
2.43.0


From c5e07a70e23756ccedb0725df62fc72c7d77e4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:29 +0000
Subject: [PATCH 41/50] fix: effects failed on rendered rooms, whose extent is
 given in floats

---
 redeclipse/aftereffects.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redeclipse/aftereffects.py b/redeclipse/aftereffects.py
index 26e5124..3e3a2d6 100644
--- a/redeclipse/aftereffects.py
+++ b/redeclipse/aftereffects.py
@@ -100,7 +100,7 @@ def grid(world, size=24):
             (z % size == 0 and y % size == 0) or \
             (z % size == 0 and x % size == 0)
 
-    for z in tqdm(range(world.zmax)):
+    for z in tqdm(range(int(world.zmax))):
         for x in range(world.size):
             for y in range(world.size):
                 if pos_func(x, y, z):
@@ -125,7 +125,7 @@ def decay(world, position_function):
     :rtype: None
     """
     log.info('Applying Decay Effect')
-    for z in tqdm(range(world.zmax + 1)):
+    for z in tqdm(range(int(world.zmax) + 1)):
         for x in range(world.size):
             for y in range(world.size):
                 if random.random() > position_function(x, y, z):
@@ -150,7 +150,7 @@ def growth(world, position_function):
     :rtype: None
     """
     log.info('Applying Growth Effect')
-    for z in tqdm(range(world.zmax)):
+    for z in tqdm(range(int(world.zmax))):
         for x in range(world.size):
             for y in range(world.size):
                 if random.random() > position_function(x, y, z):
-- 
2.43.0


From 7ffbc7b3ed31880f5d4680fc811ec7ab3e93176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:38 +0000
Subject: [PATCH 42/50] fix: magica_rooms failed unless --mirror was given

---
 redeclipse/cli/magica_rooms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/cli/magica_rooms.py b/redeclipse/cli/magica_rooms.py
index f3b1aa7..0bbeeca 100644
--- a/redeclipse/cli/magica_rooms.py
+++ b/redeclipse/cli/magica_rooms.py
@@ -131,7 +131,7 @@ if __name__ == '__main__':
     parser.add_argument('--rooms', default=200, type=int, help="Number of rooms to place")
     parser.add_argument('--debug', action='store_true', help="Debugging")
     parser.add_argument('--ctf', action='store_true', help="Include flags for CTFs")
-    parser.add_argument('--mirror', type=int, choices=[1, 2, 4], help="Mirror mode (1 = unmirrored, 2 = 2-way mirroring, 4 = 4-way mirroring)")
+    parser.add_argument('--mirror', default=2, type=int, choices=[1, 2, 4], help="Mirror mode (1 = unmirrored, 2 = 2-way mirroring, 4 = 4-way mirroring)")
     parser.add_argument('--flavor', nargs='*', choices=redeclipse.worldflavors.choices)
     args = parser.parse_args()
     # Build our map
-- 
2.43.0


From 75d9f811e8710f840ebe6cecaae002910c795f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:55 +0000
Subject: [PATCH 43/50] fix: second light of castle_wall_section_endcap was two
 cells past the end cap, possibly off the map

---
 redeclipse/prefabs/castle/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/redeclipse/prefabs/castle/__init__.py b/redeclipse/prefabs/castle/__init__.py
index 1bdfde2..ce0accd 100644
--- a/redeclipse/prefabs/castle/__init__.py
+++ b/redeclipse/prefabs/castle/__init__.py
@@ -206,7 +206,6 @@ class castle_wall_section_endcap(MagicaRoom):
 
     def render_extra(self, world, xmap):
         LIGHTMAN.light(xmap, self.pos + ABOVE)
-        LIGHTMAN.light(xmap, self.pos + (EAST + EAST + ABOVE).rotate(self.orientation))
 
 
 class castle_wall_section_long(MagicaRoom):
-- 
2.43.0


From ceffa0c6059c5f4ed3c9b68860640eb4dafc0663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:20 +0000
Subject: [PATCH 44/50] fix: never pick an option of weight zero, even for the
 smallest and largest random answer

---
 redeclipse/upm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index 2b3acd1..6755e68 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -249,10 +249,12 @@ class UnusedPositionManager:
         r = random.uniform(0, total)
         upto = 0
         for c, w in choices:
-            if upto + w >= r:
+            # r may be exactly zero, options without weight are not for that
+            if w and upto + w >= r:
                 return c
             upto += w
         # Summation error may leave r just above the last bound.
+        choices = [x for x in choices if x[1]] or choices
         return choices[-1][0] if choices else None
 
     def random_room(self, connecting_room, room_options):
-- 
2.43.0


From 6d00d5ab08df4398d5193dad63c000a194f2d435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:35 +0000
Subject: [PATCH 45/50] fix: refuse maps with an unknown cube type instead of
 returning part of the map

---
 redeclipse/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 4fae889..37da67e 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -487,8 +487,8 @@ class MapParser(object):
         elif octsav & 0x7 == OCT.OCTSAV_LODCUBE.value:
             c.haschildren = True
         else:
-            failed = True
-            return failed, c
+            # Cannot recover
+            raise Exception("Don't know how to handle cube type %s" % (octsav & 0x7))
 
         c.texture = []
         for i in range(6):
-- 
2.43.0


From f289dc4e69ce17b5f3bc4089067a34fef1ef19ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:18 +0000
Subject: [PATCH 46/50] fix: room_localization: use the doors of the room with
 its options, not of the default one

---
 redeclipse/upm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index 6755e68..108cfa5 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -312,6 +312,8 @@ class UnusedPositionManager:
             # not be necessary but it doesn't hurt anything.
             for orientation in random.sample(CARDINALS, 4):
                 kwargs = {'orientation': orientation}
+                # Add our random options, the doors of a room may depend on them
+                kwargs.update(roomClass.randOpts(prev_room))
                 # Initialize room, required to correctly calculate get_positions()/get_doorways()
                 r = roomClass(pos=CoarseVector(2, 2, 3), **kwargs)
                 # We've already picked a prev_room_door (and we know its orientation)
@@ -327,8 +329,6 @@ class UnusedPositionManager:
                 for chosen_door in options:
                     # Room offset
                     room_offset = chosen_door['offset'] - prev_room_door + prev_room_orientation
-                    # Add our random options
-                    kwargs.update(roomClass.randOpts(prev_room))
                     # Last, we yield all possible versions of this room (in case
                     # some of them don't fit.)
                     r = roomClass(pos=CoarseVector(2, 2, 3) - room_offset, **kwargs)
-- 
2.43.0


From 37a8239b0eac39b4f3cc831b2c9c24dec4efd2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:48 +0000
Subject: [PATCH 47/50] fix: snow_forest: place things by the position argument
 which entities take

---
 redeclipse/cli/snow_forest.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/redeclipse/cli/snow_forest.py b/redeclipse/cli/snow_forest.py
index e6d400b..06748d9 100644
--- a/redeclipse/cli/snow_forest.py
+++ b/redeclipse/cli/snow_forest.py
@@ -4,6 +4,7 @@ from redeclipse.entities.model import MapModel
 from redeclipse.entities import PlayerSpawn
 from redeclipse.cli import parse
 from redeclipse.objects import cube
+from redeclipse.vector import FineVector
 import argparse
 import random
 import noise
@@ -107,9 +108,7 @@ def main():
                 tree_count += 1
                 # Place tree
                 tree = MapModel(
-                    x=i * 4,
-                    y=j * 4,
-                    z=heightmap[(i, j)] * 4,
+                    xyz=FineVector(i, j, heightmap[(i, j)]),
                     type=137,
                     yaw=random.randint(0, 360),
                     scale=random.randint(56, 200),
@@ -118,9 +117,7 @@ def main():
 
             if point_spawn(i, j):
                 spawn = PlayerSpawn(
-                    x=i * 4,
-                    y=j * 4,
-                    z=heightmap[(i, j)] * 4,
+                    xyz=FineVector(i, j, heightmap[(i, j)]),
                     team=0,
                     yaw=random.randint(0, 360),
                 )
@@ -128,9 +125,7 @@ def main():
 
             if point_rock(i, j):
                 rock = MapModel(
-                    x=i * 4,
-                    y=j * 4,
-                    z=heightmap[(i, j)] * 4 - random.randint(0, 5),
+                    xyz=FineVector(i, j, heightmap[(i, j)] - random.randint(0, 5) / 4),
                     type=122,
                     yaw=random.randint(0, 360),
                     roll=random.randint(0, 360),
-- 
2.43.0


From 74fbeacac056986fc8295c85c106cb72142deb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:48 +0000
Subject: [PATCH 48/50] fix: snow_forest: no spawn in a column that has a tree

---
 redeclipse/cli/snow_forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/cli/snow_forest.py b/redeclipse/cli/snow_forest.py
index 06748d9..e9e5b47 100644
--- a/redeclipse/cli/snow_forest.py
+++ b/redeclipse/cli/snow_forest.py
@@ -115,7 +115,7 @@ def main():
                 )
                 mymap.ents.append(tree)
 
-            if point_spawn(i, j):
+            if point_spawn(i, j) and not point_tree(i, j):
                 spawn = PlayerSpawn(
                     xyz=FineVector(i, j, heightmap[(i, j)]),
                     team=0,
-- 
2.43.0


From 57a5894a1053b85ce38d70ef0eeb84de4674e917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:02 +0000
Subject: [PATCH 49/50] fix: magicavoxel_info reported wrong boundaries for
 models beyond 128 voxels

---
 redeclipse/cli/magicavoxel_info.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redeclipse/cli/magicavoxel_info.py b/redeclipse/cli/magicavoxel_info.py
index 7d298bc..9ec1969 100644
--- a/redeclipse/cli/magicavoxel_info.py
+++ b/redeclipse/cli/magicavoxel_info.py
@@ -22,7 +22,8 @@ def main(mv_in):
     classname = os.path.splitext(os.path.basename(mv_in))[0]
 
     print("Model: %s" % classname)
-    world = VoxelWorld()
+    # Large enough for every model, the boundaries start out from the size.
+    world = VoxelWorld(size=256)
     for vox in model.model_voxels.voxels:
         world.set_point(vox.x, vox.y, vox.z, vox.c)
     print("Model boundaries: x in [{0.xmin}, {0.xmax}]; y in [{0.ymin}, {0.ymax}]; z in [{0.zmin}, {0.zmax}]".format(world))
-- 
2.43.0


From dde3c405aeaa3f2f9137c99473d006eaeeae61be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:34 +0000
Subject: [PATCH 50/50] fix: configuration went to another folder or file for
 map names with .mpz elsewhere in them

---
 redeclipse/cli/__init__.py      | 3 ++-
 redeclipse/textures/__init__.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/redeclipse/cli/__init__.py b/redeclipse/cli/__init__.py
index 93e9839..7e3cb22 100644
--- a/redeclipse/cli/__init__.py
+++ b/redeclipse/cli/__init__.py
@@ -1,6 +1,7 @@
 import argparse
 import json
 import logging
+import os
 from redeclipse import MapParser
 from redeclipse.magicavoxel.writer import to_magicavoxel
 
@@ -26,7 +27,7 @@ def output(v, mymap, upm, prefabs, args):
         prefabs.TEXMAN.emit_conf(args.mpz_out)
         prefabs.TEXMAN.copy_data()
 
-        filename = args.mpz_out.name.replace('.mpz', '.cfg')
+        filename = os.path.splitext(args.mpz_out.name)[0] + '.cfg'
         with open(filename, 'a') as handle:
             for line in mymap.cfg_extra:
                 handle.write(line + '\n')
diff --git a/redeclipse/textures/__init__.py b/redeclipse/textures/__init__.py
index 2f65768..f492be8 100644
--- a/redeclipse/textures/__init__.py
+++ b/redeclipse/textures/__init__.py
@@ -175,7 +175,7 @@ class TextureManager:
         ]))
 
     def emit_conf(self, map_output_path, author="Python", map_name="test", ):
-        filename = map_output_path.name.replace('.mpz', '.cfg')
+        filename = os.path.splitext(map_output_path.name)[0] + '.cfg'
         with open(filename, 'w') as handle:
             handle.write(comment.format(author=author, map_name=map_name))
             for idx, (tex_key, tex) in enumerate(self.atlas.items()):
-- 
2.43.0

