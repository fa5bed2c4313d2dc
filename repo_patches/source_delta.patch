From 28059ae58d18d937e7f557924b095b9eba898d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:41 +0000
Subject: [PATCH 01/48] fix: close the map file so that all of it is on disk
 when Map.write returns

---
 redeclipse/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 3f67c1f..28f6bb8 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -144,6 +144,8 @@ class Map:
         self._savechildren(handle, self.world)
         self.pbar_0.close()
         # self.pbar_1.close()
+        # gzip only writes out its buffers on close.
+        handle.close()
 
     def _write_custom(self, handle, fmt, data):
         handle.write(struct.pack(fmt, *data))
-- 
2.43.0


From ed6f44131d81fef573834865b369a9d6e849a5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:41 +0000
Subject: [PATCH 02/48] fix: write octree bytes above 127 (str.encode turned
 them into two bytes)

---
 redeclipse/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 28f6bb8..8496225 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -154,7 +154,7 @@ class Map:
         handle.write(struct.pack('B', char))
 
     def _write_int_as_chr(self, handle, data):
-        handle.write(struct.pack('c', str.encode(chr(data))))
+        handle.write(struct.pack('B', data))
 
     def _write_int(self, handle, value):
         if isinstance(value, int):
-- 
2.43.0


From 7867c679fa2647ed4dd53b9654491eea2a994315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:41 +0000
Subject: [PATCH 03/48] fix: write reserved entity bytes above 127

---
 redeclipse/entities/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index f023699..a3f3778 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -61,7 +61,7 @@ class Entity:
 
     def serialize(self):
         return [self.o.x, self.o.y, self.o.z, str.encode(chr(self.type.value))] + \
-            [str.encode(chr(x)) for x in self.reserved]
+            [bytes([x]) for x in self.reserved]
 
     def to_dict(self):
         data = {
-- 
2.43.0


From e92f430e57e14c1ffa2c97025dae6cf5a6d4f4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:41 +0000
Subject: [PATCH 04/48] fix: the first attribute of a player start is a team,
 not a weapon

---
 redeclipse/entities/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index a3f3778..7665a11 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -15,7 +15,6 @@ class Entity:
                 'type', 'flags', 'modes', 'muts', 'id'
             ]
         elif self.type == EntType.ET_PLAYERSTART:
-            self.attrs[0] = WeaponType(self.attrs[0])
             self.attr_annotations = [
                 'team', 'yaw', 'pitch', 'modes', 'muts', 'id'
             ]
-- 
2.43.0


From 99630f93beed958b2bf52102b1ceceea292805da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:26 +0000
Subject: [PATCH 05/48] fix: count the map variables when writing, as entities
 are

---
 redeclipse/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 8496225..b01b8c2 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -98,6 +98,7 @@ class Map:
         self._write_int(handle, self.headersize)
         # Write the header block
         self.meta['numents'] = len(self.ents)
+        self.meta['numvars'] = len(self.map_vars)
         for key in self.meta:
             if key in ('gameident', 'skybox', 'z'):
                 self._write_str(handle, tb(self.meta[key]))
-- 
2.43.0


From 6b4906a6977a916025b9692b6f43aa7027db8d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:26 +0000
Subject: [PATCH 06/48] fix: write map variables whose name or value is text

---
 redeclipse/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index b01b8c2..7b6196e 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -107,7 +107,7 @@ class Map:
 
         # Write the map vars
         for key in self.map_vars:
-            var_name = key
+            var_name = tb(key)
             value = self.map_vars[key]
             var_type = type(self.map_vars[key]).__name__
 
@@ -121,6 +121,7 @@ class Map:
                 self._write_int(handle, 1)
                 self._write_float(handle, value)
             elif var_type in ('bytes', 'str'):
+                value = tb(value)
                 self._write_int(handle, 2)
                 self._write_int(handle, len(value))
                 self._write_str(handle, value)
-- 
2.43.0


From 7834189c454b3b46011dbf0afe41778f084fec54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:26 +0000
Subject: [PATCH 07/48] fix: attach a skybox as a map variable, the header has
 no room for it

---
 redeclipse/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 7b6196e..016383b 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -332,7 +332,7 @@ class Map:
         Attach a skybox to the map
         """
         # pass
-        self.meta['skybox'] = sb.get_short_path()
+        self.map_vars[b'skybox'] = tb(sb.get_short_path())
 
 
 class MapParser(object):
-- 
2.43.0


From cba646f52ec78793f63b6fdd43b559e4efe50085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:26 +0000
Subject: [PATCH 08/48] fix: refuse a map with an unknown octree cell instead
 of dropping the rest of it

---
 redeclipse/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 016383b..fd64d17 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -482,8 +482,7 @@ class MapParser(object):
         elif octsav & 0x7 == OCT.OCTSAV_LODCUBE.value:
             c.haschildren = True
         else:
-            failed = True
-            return failed, c
+            raise Exception("Garbage in map: unknown octree cell %s" % octsav)
 
         c.texture = []
         for i in range(6):
-- 
2.43.0


From 15bdef3f5bc21218d2e1583b110bc5f94c880d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:29 +0000
Subject: [PATCH 09/48] fix: order coarse and fine vectors in the same unit, as
 equality compares them

---
 redeclipse/vector/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/redeclipse/vector/__init__.py b/redeclipse/vector/__init__.py
index eeba9db..53713a6 100644
--- a/redeclipse/vector/__init__.py
+++ b/redeclipse/vector/__init__.py
@@ -86,6 +86,11 @@ class BaseVector(object):
         This ordering isn't a super logical one, but it is a functional one
         which is what we need to provide sorted() ability.
         """
+        if isinstance(self, CoarseVector) != isinstance(other, CoarseVector) and \
+                isinstance(self, (CoarseVector, FineVector)) and isinstance(other, (CoarseVector, FineVector)):
+            # Mixed, compare in the same unit, as __eq__ does.
+            return self.fine() < other.fine()
+
         if self.x < other.x:
             return True
         elif self.x == other.x:
-- 
2.43.0


From 557da497c427e66dd62ed71f165563bd36684cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:59 +0000
Subject: [PATCH 10/48] fix: keep the first octant's own octree code when
 saving (forcing 0 corrupts a map where it is empty)

---
 redeclipse/cli/__init__.py    | 1 -
 redeclipse/cli/perlin.py      | 1 -
 redeclipse/cli/rooms.py       | 1 -
 redeclipse/cli/snow_forest.py | 1 -
 4 files changed, 4 deletions(-)

diff --git a/redeclipse/cli/__init__.py b/redeclipse/cli/__init__.py
index f6ce541..341841e 100644
--- a/redeclipse/cli/__init__.py
+++ b/redeclipse/cli/__init__.py
@@ -32,7 +32,6 @@ def output(v, mymap, upm, prefabs, args):
                 handle.write(line + '\n')
 
         mymap.world = v.to_octree()
-        mymap.world[0].octsav = 0
         mymap.write(args.mpz_out.name)
 
     if args.graph:
diff --git a/redeclipse/cli/perlin.py b/redeclipse/cli/perlin.py
index 999ccdc..31b79a2 100644
--- a/redeclipse/cli/perlin.py
+++ b/redeclipse/cli/perlin.py
@@ -73,7 +73,6 @@ def main():
                     v.set_point(i, j, k, cube.newtexcube(tex=q))
 
     mymap.world = v.to_octree()
-    mymap.world[0].octsav = 0
     mymap.write(args.output)
 
 
diff --git a/redeclipse/cli/rooms.py b/redeclipse/cli/rooms.py
index f5b9811..fd64796 100644
--- a/redeclipse/cli/rooms.py
+++ b/redeclipse/cli/rooms.py
@@ -83,7 +83,6 @@ def main(mpz_in, mpz_out, size=2**7, seed=42, rooms=200, debug=False, magica=Non
         print('voxel')
 
     mymap.world = v.to_octree()
-    mymap.world[0].octsav = 0
     mymap.write(mpz_out.name)
 
 
diff --git a/redeclipse/cli/snow_forest.py b/redeclipse/cli/snow_forest.py
index 4b923b2..e6d400b 100644
--- a/redeclipse/cli/snow_forest.py
+++ b/redeclipse/cli/snow_forest.py
@@ -140,7 +140,6 @@ def main():
                 mymap.ents.append(rock)
 
     mymap.world = v.to_octree()
-    mymap.world[0].octsav = 0
     mymap.write(args.output)
 
 
-- 
2.43.0


From 0998ac8b5ff599deb9f7d14d5e8e513b73784fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:10 +0000
Subject: [PATCH 11/48] fix: the dull theme lists only textures that exist
 (tex8 and tex115 do not)

---
 redeclipse/textures/dull_theme.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redeclipse/textures/dull_theme.py b/redeclipse/textures/dull_theme.py
index 5048c4f..235cd4f 100644
--- a/redeclipse/textures/dull_theme.py
+++ b/redeclipse/textures/dull_theme.py
@@ -3,13 +3,13 @@ from itertools import chain
 
 GenericMaterial = [
     'tex%s' % x for x in
-    range(4, 9)
+    range(4, 8)
 ]
 
 
 FloorMaterial = [
     'tex%s' % x for x in
-    chain(range(4, 8), [9], range(92, 116), range(504, 505))
+    chain(range(4, 8), [9], range(92, 115), range(504, 505))
 ]
 
 
-- 
2.43.0


From 746f7f7225c0e00b9efe6a9b7ec9298c90a193e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:10 +0000
Subject: [PATCH 12/48] fix: an unknown texture category gives a texture
 number, not a name

---
 redeclipse/textures/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/textures/__init__.py b/redeclipse/textures/__init__.py
index 3f1ea2f..93957f2 100644
--- a/redeclipse/textures/__init__.py
+++ b/redeclipse/textures/__init__.py
@@ -210,7 +210,7 @@ class ThemedTextureManager(TextureManager):
         elif category == 'accent':
             return self.get(random.choice(self.theme.AccentMaterial))
 
-        return random.choice(self.theme.GenericMaterial)
+        return self.get(random.choice(self.theme.GenericMaterial))
 
     def discover_textures(self):
         super().discover_textures()
-- 
2.43.0


From 638f4f6247b9fa4018cc7c799ad912235035b01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:10 +0000
Subject: [PATCH 13/48] fix: end a texcolor line, the next texture's shader ran
 into it

---
 redeclipse/textures/basetex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/textures/basetex.py b/redeclipse/textures/basetex.py
index d6aa77a..4bf3f08 100644
--- a/redeclipse/textures/basetex.py
+++ b/redeclipse/textures/basetex.py
@@ -92,7 +92,7 @@ texture s "{0.basepath}/{0.s}"
 """.format(self, idx=idx)
 
         if self.texcolor:
-            conf += "texcolor %s %s %s" % self.texcolor
+            conf += "texcolor %s %s %s\n" % self.texcolor
         return conf
 
 
-- 
2.43.0


From ea65958dca7b063c224784b1485622faf9b53ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:28 +0000
Subject: [PATCH 14/48] fix: name no depth image for a texture that has none

---
 redeclipse/textures/basetex.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/redeclipse/textures/basetex.py b/redeclipse/textures/basetex.py
index 4bf3f08..b97e867 100644
--- a/redeclipse/textures/basetex.py
+++ b/redeclipse/textures/basetex.py
@@ -124,8 +124,10 @@ class DefaultBumpSpecMapParallaxWorld(BaseTex):
 
         conf += """texture c "{0.basepath}/{0.c}" 0 0 0 0.500000 // {idx} {0.__class__}
 texture n "{0.basepath}/{0.n}"
-texture s "{0.basepath}/{0.s}"
-texture z "{0.basepath}/{0.z}"\n""".format(self, idx=idx)
+texture s "{0.basepath}/{0.s}"\n""".format(self, idx=idx)
+
+        if self.z:
+            conf += """texture z "{0.basepath}/{0.z}"\n""".format(self)
 
         if self.texcolor:
             conf += "texcolor %s %s %s\n\n" % self.texcolor
@@ -166,9 +168,11 @@ class DefaultBumpSpecMapParallaxGlowWorld(BaseTex):
 
         conf += """texture c "{0.basepath}/{0.c}" 0 0 0 0.500000 // {idx} {0.__class__}
 texture n "{0.basepath}/{0.n}"
-texture s "{0.basepath}/{0.s}"
-texture z "{0.basepath}/{0.z}"
-texture g "{0.basepath}/{0.g}"\n""".format(self, idx=idx)
+texture s "{0.basepath}/{0.s}"\n""".format(self, idx=idx)
+
+        if self.z:
+            conf += """texture z "{0.basepath}/{0.z}"\n""".format(self)
+        conf += """texture g "{0.basepath}/{0.g}"\n""".format(self)
 
         if self.texcolor:
             conf += "texcolor %s %s %s\n\n" % self.texcolor
-- 
2.43.0


From 99abb00a176b5749f3a9f3c7e6aaece6545c9153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:48 +0000
Subject: [PATCH 15/48] fix: player starts, weapons and models at a coarse
 position (and the default player start)

---
 redeclipse/entities/__init__.py | 5 +++--
 redeclipse/entities/model.py    | 2 +-
 redeclipse/entities/weapon.py   | 6 +++---
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index 7665a11..e7789fc 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -1,3 +1,4 @@
+from redeclipse.vector import FineVector
 from redeclipse.vector.re import ivec3
 from redeclipse.enums import EntType, WeaponType
 
@@ -98,8 +99,8 @@ class Entity:
 
 class PlayerSpawn(Entity):
 
-    def __init__(self, xyz=(0, 0, 0), team=0, yaw=0, pitch=0, modes=0, muts=0, id=0, links=None, reserved=None):
-        self.o = ivec3(*(xyz * 4))
+    def __init__(self, xyz=FineVector(0, 0, 0), team=0, yaw=0, pitch=0, modes=0, muts=0, id=0, links=None, reserved=None):
+        self.o = ivec3(*(xyz.fine() * 4))
         self.type = EntType.ET_PLAYERSTART
         self.attr_annotations = [
             'team', 'yaw', 'pitch', 'modes', 'muts', 'id'
diff --git a/redeclipse/entities/model.py b/redeclipse/entities/model.py
index 9708c1c..4e23c37 100644
--- a/redeclipse/entities/model.py
+++ b/redeclipse/entities/model.py
@@ -9,7 +9,7 @@ class MapModel(Entity):
                  scale=0, flags=0, colour=0, palette=0, palindex=0, spinyaw=0,
                  spinpitch=0, spinroll=0, links=None, reserved=None):
 
-        self.o = ivec3(*(xyz * 4))
+        self.o = ivec3(*(xyz.fine() * 4))
         self.type = EntType.ET_MAPMODEL
         self.attrs = [
             type, yaw, pitch, roll, blend, scale, flags, colour, palette,
diff --git a/redeclipse/entities/weapon.py b/redeclipse/entities/weapon.py
index 85592c1..659acb1 100644
--- a/redeclipse/entities/weapon.py
+++ b/redeclipse/entities/weapon.py
@@ -8,7 +8,7 @@ class Weapon(Entity):
     def __init__(self, xyz, type=0, flags=0, modes=0, muts=0, id=0,
                  links=None, reserved=None):
 
-        self.o = ivec3(*(xyz * 4))
+        self.o = ivec3(*(xyz.fine() * 4))
         self.type = EntType.ET_WEAPON
         self.attr_annotations = [
             'type', 'flags', 'modes', 'muts', 'id'
@@ -25,7 +25,7 @@ class Grenade(Entity):
     def __init__(self, xyz, flags=0, modes=0, muts=0, id=0,
                  links=None, reserved=None):
 
-        self.o = ivec3(*(xyz * 4))
+        self.o = ivec3(*(xyz.fine() * 4))
         self.type = EntType.ET_WEAPON
         self.attr_annotations = [
             'type', 'flags', 'modes', 'muts', 'id'
@@ -42,7 +42,7 @@ class Shotgun(Entity):
     def __init__(self, xyz, flags=0, modes=0, muts=0, id=0,
                  links=None, reserved=None):
 
-        self.o = ivec3(*(xyz * 4))
+        self.o = ivec3(*(xyz.fine() * 4))
         self.type = EntType.ET_WEAPON
         self.attr_annotations = [
             'type', 'flags', 'modes', 'muts', 'id'
-- 
2.43.0


From 3b088621ab9b5ef966863ccdc90294fb5ca95191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:48 +0000
Subject: [PATCH 16/48] fix: export generated weapons and models to JSON

---
 redeclipse/entities/__init__.py | 2 +-
 redeclipse/entities/model.py    | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index e7789fc..95b2259 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -76,7 +76,7 @@ class Entity:
             data['attr'][key] = value
 
         if self.type == EntType.ET_WEAPON:
-            data['attr']['type'] = data['attr']['type'].name
+            data['attr']['type'] = WeaponType(data['attr']['type']).name
 
         data['attr']['_order'] = self.attr_annotations
 
diff --git a/redeclipse/entities/model.py b/redeclipse/entities/model.py
index 4e23c37..6027fea 100644
--- a/redeclipse/entities/model.py
+++ b/redeclipse/entities/model.py
@@ -11,6 +11,11 @@ class MapModel(Entity):
 
         self.o = ivec3(*(xyz.fine() * 4))
         self.type = EntType.ET_MAPMODEL
+        self.attr_annotations = [
+            'type', 'yaw', 'pitch', 'roll', 'blend', 'scale', 'flags',
+            'colour', 'palette', 'palindex', 'spinyaw', 'spinpitch',
+            'spinroll'
+        ]
         self.attrs = [
             type, yaw, pitch, roll, blend, scale, flags, colour, palette,
             palindex, spinyaw, spinpitch, spinroll
-- 
2.43.0


From 45b371f12c7998cf23b0c08a53d1208cf59e8d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:48 +0000
Subject: [PATCH 17/48] fix: build an entity from its dictionary form

---
 redeclipse/entities/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index 95b2259..b88ea74 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -86,9 +86,7 @@ class Entity:
     def from_dict(cls, d):
         attrs = [d['attr'][x] if isinstance(d['attr'][x], int) else WeaponType[d['attr'][x]] for x in d['attr']['_order']]
         e = Entity(
-            x=d['position'][0],
-            y=d['position'][1],
-            z=d['position'][2],
+            xyz=FineVector(*d['position']) / 4,
             type=EntType[d['type']],
             attrs=attrs,
             links=d['links'],
-- 
2.43.0


From e05639423030f7c9af1c1fda9d9ed04cc6751d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:48 +0000
Subject: [PATCH 18/48] fix: place a light without centring it

---
 redeclipse/lighting/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redeclipse/lighting/__init__.py b/redeclipse/lighting/__init__.py
index 03eb654..8ce6d53 100644
--- a/redeclipse/lighting/__init__.py
+++ b/redeclipse/lighting/__init__.py
@@ -39,6 +39,8 @@ class LightManager:
         """
         if autocenter:
             pos = position + TILE_CENTER + HALF_HEIGHT
+        else:
+            pos = position
 
         if colour_override:
             (red, green, blue) = colour_override
-- 
2.43.0


From 60ce2f6d5c2f7a1d86355c06745d2fc3144c1aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:34 +0000
Subject: [PATCH 19/48] fix: export cells whose faces do not all have a surface

---
 redeclipse/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/objects.py b/redeclipse/objects.py
index 245090b..f593275 100644
--- a/redeclipse/objects.py
+++ b/redeclipse/objects.py
@@ -157,7 +157,7 @@ class cubext:
             'surfaceinfo': self.surfaceinfo,
             'maxverts': self.maxverts,
             'verts': self.verts,
-            'surfaces': [x.to_dict() for x in self.surfaces],
+            'surfaces': [x.to_dict() if x else None for x in self.surfaces],
         }
 
     @classmethod
-- 
2.43.0


From ffba3a8658ac6183a356af8219ac1cb7dbeefe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:40 +0000
Subject: [PATCH 20/48] fix: a position just past the edge of the map is not
 legal

---
 redeclipse/upm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index ae714b3..20d70fb 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -48,9 +48,9 @@ class UnusedPositionManager:
         :rtype: boolean
         """
         # TODO: dependent on world size.
-        return 0 <= position.x <= 32 and \
-            0 <= position.y <= 32 and \
-            0 <= position.z <= 32
+        return 0 <= position.x < 32 and \
+            0 <= position.y < 32 and \
+            0 <= position.z < 32
 
     def _yield_mirrored(self, room):
         for orientation in self.mirror_rotations:
-- 
2.43.0


From ff40c86f2604b4c62d58257eb0a9c4985a92714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:40 +0000
Subject: [PATCH 21/48] fix: do not place rooms that stick out of the map

---
 redeclipse/upm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index 20d70fb..b406228 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -91,6 +91,8 @@ class UnusedPositionManager:
             # First, we need to check that ALL of those positions are
             # unoccupied.
             for position in used:
+                if not self.is_legal(position):
+                    return False
                 if position in self.occupied.keys() or position in added_occupied:
                     return False
             added_occupied = added_occupied.union(set(used))
-- 
2.43.0


From 84093e97322e492616ca3a36f571f3c326966e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:40 +0000
Subject: [PATCH 22/48] fix: do not list a room that could not be registered

---
 redeclipse/upm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index b406228..2844c21 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -123,14 +123,13 @@ class UnusedPositionManager:
 
     def _register_room(self, room):
         used = room.get_positions()
-        self.rooms.append(room)
         # First, we need to check that ALL of those positions are
         # unoccupied.
         for position in used:
             if position in self.occupied.keys() and not self.noclip:
                 raise Exception("Occupado %s" % position)
         # Otherwise, all positions are fine to use.
-
+        self.rooms.append(room)
         self.occupied.update({pos: room for pos in used})
         # Remove occupied positions from possibilities
         self.unoccupied = [(p, r, o) for (p, r, o) in self.unoccupied if p not in used]
-- 
2.43.0


From a7dcef57cbdd7e24337804a5e3d1003652dc5065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:59 +0000
Subject: [PATCH 23/48] fix: choose the door for the variant of the room that
 gets placed

---
 redeclipse/upm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index 2844c21..9ff31d6 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -296,6 +296,8 @@ class UnusedPositionManager:
             # not be necessary but it doesn't hurt anything.
             for orientation in random.sample(CARDINALS, 4):
                 kwargs = {'orientation': orientation}
+                # Add our random options, the doors may depend on them.
+                kwargs.update(roomClass.randOpts(prev_room))
                 # Initialize room, required to correctly calculate get_positions()/get_doorways()
                 r = roomClass(pos=CoarseVector(2, 2, 3), **kwargs)
                 # We've already picked a prev_room_door (and we know its orientation)
@@ -311,8 +313,6 @@ class UnusedPositionManager:
                 for chosen_door in options:
                     # Room offset
                     room_offset = chosen_door['offset'] - prev_room_door + prev_room_orientation
-                    # Add our random options
-                    kwargs.update(roomClass.randOpts(prev_room))
                     # Last, we yield all possible versions of this room (in case
                     # some of them don't fit.)
                     r = roomClass(pos=CoarseVector(2, 2, 3) - room_offset, **kwargs)
-- 
2.43.0


From 80237015920e780021604801fb199900036b9995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:59 +0000
Subject: [PATCH 24/48] fix: always choose something when the draw is rounded
 up

---
 redeclipse/upm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index 9ff31d6..8b6e4a1 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -240,7 +240,8 @@ class UnusedPositionManager:
             if upto + w >= r:
                 return c
             upto += w
-        return None
+        # Rounding can leave r just above the sum of all the weights.
+        return choices[-1][0] if choices else None
 
     def random_room(self, connecting_room, room_options):
         """Pick out a random room based on the connecting room and the
-- 
2.43.0


From 8c9cb724e5e6b187526260f0ceec209fea25f862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:59 +0000
Subject: [PATCH 25/48] fix: cap two open doors onto the same position only
 once

---
 redeclipse/upm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index 8b6e4a1..e30ae89 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -353,6 +353,8 @@ class UnusedPositionManager:
     def endcap(self, debug=False, possible_endcaps=[]):
         if debug:
             for (pos, typ, ori) in tqdm(self.unoccupied):
+                if pos in self.occupied.keys():
+                    continue
                 r = self._room_cap_debug(pos, typ, ori)
                 if r:
                     self._register_room(r)
-- 
2.43.0


From 589623b201c14c3c3ba952fece43d6d7d9466136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:23 +0000
Subject: [PATCH 26/48] fix: the altar room uses the flags it is given

---
 redeclipse/prefabs/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index a10de65..bce414e 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -138,6 +138,8 @@ class _3X3Room(Room):
         part of placement, we wouldn't want to place a partial room."""
         self.pos = CoarseVector(*pos)
         self.orientation = orientation
+        if randflags:
+            self._randflags = randflags
 
     def _get_doorways(self):
         return [
-- 
2.43.0


From 7774764000441973b78683c61a96ab72ee75f4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:23 +0000
Subject: [PATCH 27/48] fix: draw the height of a pole from integer bounds

---
 redeclipse/prefabs/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index bce414e..47c4e64 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -654,7 +654,7 @@ class PoleRoom(_LargeRoom):
                         length = FineVector(1, 1, 8 * self._height)
                         voff = ABOVE_FINE
                     else:
-                        offset = random.randint(1, 8 * self._height / 2)
+                        offset = random.randint(1, 8 * self._height // 2)
                         length = FineVector(1, 1, (8 * self._height) - (2 * offset))
                         voff = (ABOVE_FINE * offset)
 
-- 
2.43.0


From 237948364fa4084fd730102b48fe9780eeb0b2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:23 +0000
Subject: [PATCH 28/48] fix: the ring room does not cut into the cells above it

---
 redeclipse/prefabs/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index 47c4e64..ef6b794 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -766,10 +766,12 @@ class ImposingRingRoom(_LargeRoom):
             for i in range(2, self._height * 8 - 1, 2):
                 self.x('ring', world, FineVector(-2, -2, i), 12, tex=accent_tex)
 
-        self.x('rectangular_prism', world, FineVector(-4, 2, 1), FineVector(3, 4, 8), subtract=True)
-        self.x('rectangular_prism', world, FineVector(2, -4, 1), FineVector(4, 3, 8), subtract=True)
-        self.x('rectangular_prism', world, FineVector(9, 2, 1), FineVector(3, 4, 8), subtract=True)
-        self.x('rectangular_prism', world, FineVector(2, 9, 1), FineVector(4, 3, 8), subtract=True)
+        # Cut openings, without cutting into what is above the room.
+        depth = min(8, (8 * self._height) - 1)
+        self.x('rectangular_prism', world, FineVector(-4, 2, 1), FineVector(3, 4, depth), subtract=True)
+        self.x('rectangular_prism', world, FineVector(2, -4, 1), FineVector(4, 3, depth), subtract=True)
+        self.x('rectangular_prism', world, FineVector(9, 2, 1), FineVector(3, 4, depth), subtract=True)
+        self.x('rectangular_prism', world, FineVector(2, 9, 1), FineVector(4, 3, depth), subtract=True)
 
     def light(self, xmap):
         LIGHTMAN.light(xmap, self.pos + NORTH + HALF_HEIGHT + TILE_CENTER)
-- 
2.43.0


From 3bf2c89cd45c7c44dfb673a1b14be380f12c7bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:23 +0000
Subject: [PATCH 29/48] fix: turn the light of a large room about the room, not
 about the origin

---
 redeclipse/prefabs/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index ef6b794..2ff7a00 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -617,8 +617,8 @@ class _LargeRoom(_3X3Room):
         h = 6
         if self._height > 1:
             h = 12
-        position = self.pos + NORTH + TILE_CENTER + FineVector(0, 0, h)
-        LIGHTMAN.light(xmap, position.rotate(self.orientation))
+        position = NORTH + TILE_CENTER + FineVector(0, 0, h)
+        LIGHTMAN.light(xmap, self.pos + position.rotate(self.orientation))
 
 
 class PoleRoom(_LargeRoom):
-- 
2.43.0


From 9886e398b14e0f6bfa8b9bbd9c4cdb62758cbdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:23 +0000
Subject: [PATCH 30/48] fix: light crossing walkways where they are

---
 redeclipse/prefabs/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index 2ff7a00..a9872ae 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -902,7 +902,7 @@ class CrossingWalkways(_LargeRoom):
 
     def light(self, xmap):
         for i in range(self._height):
-            LIGHTMAN.light(xmap, SELF + (ABOVE * i))
+            LIGHTMAN.light(xmap, self.pos + (ABOVE * i))
 
 
 class PlusPlatform(_LargeRoom):
-- 
2.43.0


From ef09d055d779f76cd340947c06085ee465ceb266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:23 +0000
Subject: [PATCH 31/48] fix: turn pushers and trees with the room they stand in

---
 redeclipse/prefabs/__init__.py              | 12 ++++++------
 redeclipse/prefabs/spacestation/__init__.py |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index a9872ae..d21c335 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -320,14 +320,14 @@ class JumpCorridor3(Room):
         (a, b, c) = self.pos
 
         pusher_a = Pusher(
-            xyz=self.pos + FineVector(7, 4, 1).rotate(self.orientation),
+            xyz=self.pos + FineVector(7, 4, 1).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             maxrad=15 * SIZE_OFFSET,
             yaw=rotate_yaw(270, self.orientation),
             force=175 * SIZE_OFFSET,
         )
 
         pusher_b = Pusher(
-            xyz=self.pos + (EAST + EAST + FineVector(1, 4, 1)).rotate(self.orientation),
+            xyz=self.pos + (EAST + EAST + FineVector(1, 4, 1)).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             maxrad=15 * SIZE_OFFSET,
             yaw=rotate_yaw(90, self.orientation),
             force=175 * SIZE_OFFSET,
@@ -382,7 +382,7 @@ class JumpCorridorVertical(Room):
         self.light(xmap)
 
         pusher_a = Pusher(
-            xyz=self.pos + FineVector(5, 4, 1).rotate(self.orientation),
+            xyz=self.pos + FineVector(5, 4, 1).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             pitch=74,
             yaw=rotate_yaw(270, self.orientation),
             force=400 * SIZE_OFFSET,
@@ -390,7 +390,7 @@ class JumpCorridorVertical(Room):
         xmap.ents.append(pusher_a)
 
         pusher_b = Pusher(
-            xyz=self.pos + FineVector(6, 4, 17).rotate(self.orientation),
+            xyz=self.pos + FineVector(6, 4, 17).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             pitch=40,
             yaw=rotate_yaw(90, self.orientation),
             force=200 * SIZE_OFFSET,
@@ -471,7 +471,7 @@ class JumpCorridorVerticalCenter(JumpCorridorVertical):
             force = 700 * SIZE_OFFSET
 
         pusher_a = Pusher(
-            xyz=self.pos + FineVector(4, 4, 1).rotate(self.orientation),
+            xyz=self.pos + FineVector(4, 4, 1).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             pitch=90,
             maxrad=5,
             yaw=rotate_yaw(0, self.orientation),
@@ -814,7 +814,7 @@ class AltarRoom(_3X3Room):
 
         if self._randflags[0]:
             tree = MapModel(
-                xyz=self.pos + FineVector(4, 4, 3).rotate(self.orientation),
+                xyz=self.pos + FineVector(4, 4, 3).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
                 yaw=rotate_yaw(270, self.orientation),
                 type=124
             )
diff --git a/redeclipse/prefabs/spacestation/__init__.py b/redeclipse/prefabs/spacestation/__init__.py
index cd335d1..9ff4c1c 100644
--- a/redeclipse/prefabs/spacestation/__init__.py
+++ b/redeclipse/prefabs/spacestation/__init__.py
@@ -264,7 +264,7 @@ class station_tube_jumpx(MagicaRoom):
         LIGHTMAN.light(xmap, self.pos + (EAST + NORTH + ABOVE).rotate(self.orientation), size_factor=2)
 
         pusher_a = Pusher(
-            xyz=self.pos + (EAST + NORTH + FineVector(4, 5, 12)).rotate(self.orientation),
+            xyz=self.pos + (EAST + NORTH + FineVector(4, 5, 12)).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             pitch=90,
             maxrad=1,
             yaw=rotate_yaw(0, self.orientation),
-- 
2.43.0


From ab42061bfd42b4672f31410ca5796c72da05d0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:32 +0000
Subject: [PATCH 32/48] fix: the lights of three castle rooms stand in the room

---
 redeclipse/prefabs/castle/__init__.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/redeclipse/prefabs/castle/__init__.py b/redeclipse/prefabs/castle/__init__.py
index 06cf242..d7fc07e 100644
--- a/redeclipse/prefabs/castle/__init__.py
+++ b/redeclipse/prefabs/castle/__init__.py
@@ -91,8 +91,8 @@ class castle_gate_simple(MagicaRoom):
     ]
 
     def render_extra(self, world, xmap):
-        LIGHTMAN.light(xmap, self.pos + (EAST + NORTH).rotate(self.orientation))
-        LIGHTMAN.light(xmap, self.pos + (EAST + NORTH + ABOVE).rotate(self.orientation))
+        LIGHTMAN.light(xmap, self.pos + EAST.rotate(self.orientation))
+        LIGHTMAN.light(xmap, self.pos + (EAST + ABOVE).rotate(self.orientation))
 
 
 class castle_large(MagicaRoom):
@@ -206,7 +206,6 @@ class castle_wall_section_endcap(MagicaRoom):
 
     def render_extra(self, world, xmap):
         LIGHTMAN.light(xmap, self.pos + ABOVE)
-        LIGHTMAN.light(xmap, self.pos + (EAST + EAST + ABOVE).rotate(self.orientation))
 
 
 class castle_wall_section_long(MagicaRoom):
@@ -268,8 +267,8 @@ class castle_wall_section_x(MagicaRoom):
     ]
 
     def render_extra(self, world, xmap):
-        LIGHTMAN.light(xmap, self.pos + ABOVE)
-        LIGHTMAN.light(xmap, self.pos + (EAST + EAST + ABOVE).rotate(self.orientation))
+        LIGHTMAN.light(xmap, self.pos + (NORTH + ABOVE).rotate(self.orientation))
+        LIGHTMAN.light(xmap, self.pos + (EAST + EAST + NORTH + ABOVE).rotate(self.orientation))
 
 
 class castle_wall_tower(MagicaRoom):
-- 
2.43.0


From 1ed6f1dcd2983c6905c8064d4bea325df90283a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:15 +0000
Subject: [PATCH 33/48] fix: turn the boundary of a model room once, with its
 voxels

---
 redeclipse/prefabs/magica.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/prefabs/magica.py b/redeclipse/prefabs/magica.py
index 5e6ace0..907f565 100644
--- a/redeclipse/prefabs/magica.py
+++ b/redeclipse/prefabs/magica.py
@@ -18,7 +18,7 @@ class MagicaRoom(Room):
     ]
 
     def __init__(self, pos, roof=False, orientation=EAST, randflags=None):
-        self._off = FineVector(self.boundary_additions.get('WEST', 0), self.boundary_additions.get('SOUTH', 0), 0).rotate(orientation)
+        self._off = FineVector(self.boundary_additions.get('WEST', 0), self.boundary_additions.get('SOUTH', 0), 0)
         self.orientation = orientation
         self.pos = CoarseVector(*pos)
         if randflags:
-- 
2.43.0


From a35a0bcc42756bc8ff92d108b8f025549a0011da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:31 +0000
Subject: [PATCH 34/48] fix: decay reaches the topmost layer of the world

---
 redeclipse/aftereffects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/aftereffects.py b/redeclipse/aftereffects.py
index d06c6e7..26e5124 100644
--- a/redeclipse/aftereffects.py
+++ b/redeclipse/aftereffects.py
@@ -125,7 +125,7 @@ def decay(world, position_function):
     :rtype: None
     """
     log.info('Applying Decay Effect')
-    for z in tqdm(range(world.zmax)):
+    for z in tqdm(range(world.zmax + 1)):
         for x in range(world.size):
             for y in range(world.size):
                 if random.random() > position_function(x, y, z):
-- 
2.43.0


From 61cbcc6c8ef75f32dbe5fce8237be8fceed6b8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:50 +0000
Subject: [PATCH 35/48] fix: effects work on the fractional bounds of a world
 built of rooms

---
 redeclipse/aftereffects.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redeclipse/aftereffects.py b/redeclipse/aftereffects.py
index 26e5124..3e3a2d6 100644
--- a/redeclipse/aftereffects.py
+++ b/redeclipse/aftereffects.py
@@ -100,7 +100,7 @@ def grid(world, size=24):
             (z % size == 0 and y % size == 0) or \
             (z % size == 0 and x % size == 0)
 
-    for z in tqdm(range(world.zmax)):
+    for z in tqdm(range(int(world.zmax))):
         for x in range(world.size):
             for y in range(world.size):
                 if pos_func(x, y, z):
@@ -125,7 +125,7 @@ def decay(world, position_function):
     :rtype: None
     """
     log.info('Applying Decay Effect')
-    for z in tqdm(range(world.zmax + 1)):
+    for z in tqdm(range(int(world.zmax) + 1)):
         for x in range(world.size):
             for y in range(world.size):
                 if random.random() > position_function(x, y, z):
@@ -150,7 +150,7 @@ def growth(world, position_function):
     :rtype: None
     """
     log.info('Applying Growth Effect')
-    for z in tqdm(range(world.zmax)):
+    for z in tqdm(range(int(world.zmax))):
         for x in range(world.size):
             for y in range(world.size):
                 if random.random() > position_function(x, y, z):
-- 
2.43.0


From 30791a86a0fe440e1d8f395e1467ddb25add35a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:18 +0000
Subject: [PATCH 36/48] fix: count only the voxels that are written to the
 MagicaVoxel file

---
 redeclipse/magicavoxel/writer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/redeclipse/magicavoxel/writer.py b/redeclipse/magicavoxel/writer.py
index 0b69018..9a233a8 100644
--- a/redeclipse/magicavoxel/writer.py
+++ b/redeclipse/magicavoxel/writer.py
@@ -2,7 +2,12 @@ import struct
 
 
 def to_magicavoxel(voxel_world, handle, texman):
-    cs = 4 * (1 + len(voxel_world.world))
+    # Only these fit into the file.
+    voxels = [
+        ((x, y, z), value) for ((x, y, z), value) in voxel_world.world.items()
+        if 0 <= x <= 255 and 0 <= y <= 255 and 0 <= z <= 255
+    ]
+    cs = 4 * (1 + len(voxels))
     handle.write(struct.pack('4s', b'VOX '))
     handle.write(struct.pack('i', 150))
     handle.write(struct.pack('4s', b'MAIN'))
@@ -19,14 +24,12 @@ def to_magicavoxel(voxel_world, handle, texman):
     handle.write(struct.pack('4s', b'XYZI'))
     handle.write(struct.pack('i', cs))  # chunk size TODO
     handle.write(struct.pack('i', 0))  # child chunk size
-    handle.write(struct.pack('i', len(voxel_world.world)))  # numvoxels
+    handle.write(struct.pack('i', len(voxels)))  # numvoxels
 
     def m(x):
         return int(x)
 
-    for ((x, y, z), value) in voxel_world.world.items():
-        if x > 255 or y > 255 or z > 255 or x < 0 or y < 0 or z < 0:
-            continue
+    for ((x, y, z), value) in voxels:
         handle.write(struct.pack('BBBB', m(x), m(y), m(z), m(value.texture[0] + 1)))
         # handle.write(struct.pack('BBBB', m(x), m(y), m(z), 1))
 
-- 
2.43.0


From 6c2c674edaa219f4e6476f62fd425f6894b9c340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:18 +0000
Subject: [PATCH 37/48] fix: write the size of all three chunks of a
 MagicaVoxel file

---
 redeclipse/magicavoxel/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/magicavoxel/writer.py b/redeclipse/magicavoxel/writer.py
index 9a233a8..f298b72 100644
--- a/redeclipse/magicavoxel/writer.py
+++ b/redeclipse/magicavoxel/writer.py
@@ -12,7 +12,7 @@ def to_magicavoxel(voxel_world, handle, texman):
     handle.write(struct.pack('i', 150))
     handle.write(struct.pack('4s', b'MAIN'))
     handle.write(struct.pack('i', 0))  # Chunk size
-    handle.write(struct.pack('i', cs + 36 + 1024))  # child chunk size TODO
+    handle.write(struct.pack('i', cs + 48 + 1024))  # child chunk size: 24 + (12 + cs) + (12 + 1024)
     # Size chunk
     handle.write(struct.pack('4s', b'SIZE'))
     handle.write(struct.pack('i', 12))
-- 
2.43.0


From 565ef693b56136f3d22bf5659476c82dca51519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:18 +0000
Subject: [PATCH 38/48] fix: write all 256 colours of a MagicaVoxel palette

---
 redeclipse/magicavoxel/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/magicavoxel/writer.py b/redeclipse/magicavoxel/writer.py
index f298b72..1f6ad64 100644
--- a/redeclipse/magicavoxel/writer.py
+++ b/redeclipse/magicavoxel/writer.py
@@ -44,5 +44,5 @@ def to_magicavoxel(voxel_world, handle, texman):
     for idx, (tex_key, tex) in enumerate(texman.atlas.items()):
         handle.write(struct.pack('BBBB', n(tex.r), n(tex.g), n(tex.b), 255))  # white
 
-    for i in range(255 - len(texman.atlas)):
+    for i in range(256 - len(texman.atlas)):
         handle.write(struct.pack('BBBB', 0, 0, 0, 255))  # white
-- 
2.43.0


From 85a1680266fbe084c12c1463755b134664dec3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:19 +0000
Subject: [PATCH 39/48] fix: the size of a MagicaVoxel model includes its last
 voxel

---
 redeclipse/magicavoxel/writer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redeclipse/magicavoxel/writer.py b/redeclipse/magicavoxel/writer.py
index 1f6ad64..5585de3 100644
--- a/redeclipse/magicavoxel/writer.py
+++ b/redeclipse/magicavoxel/writer.py
@@ -17,9 +17,9 @@ def to_magicavoxel(voxel_world, handle, texman):
     handle.write(struct.pack('4s', b'SIZE'))
     handle.write(struct.pack('i', 12))
     handle.write(struct.pack('i', 0))
-    handle.write(struct.pack('i', int(voxel_world.xmax)))  # x
-    handle.write(struct.pack('i', int(voxel_world.ymax)))  # y
-    handle.write(struct.pack('i', int(voxel_world.zmax)))  # z
+    handle.write(struct.pack('i', int(voxel_world.xmax) + 1))  # x
+    handle.write(struct.pack('i', int(voxel_world.ymax) + 1))  # y
+    handle.write(struct.pack('i', int(voxel_world.zmax) + 1))  # z
     # xyzi chunk
     handle.write(struct.pack('4s', b'XYZI'))
     handle.write(struct.pack('i', cs))  # chunk size TODO
-- 
2.43.0


From 5c78ddd9592b3db5c1a466496b32204516056744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:24 +0000
Subject: [PATCH 40/48] fix: a graph can contain rooms that have no name

---
 redeclipse/cli/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/redeclipse/cli/__init__.py b/redeclipse/cli/__init__.py
index 341841e..695f3e0 100644
--- a/redeclipse/cli/__init__.py
+++ b/redeclipse/cli/__init__.py
@@ -40,10 +40,12 @@ def output(v, mymap, upm, prefabs, args):
             "links": []
         }
         for room in upm.rooms:
+            # Only the MagicaVoxel rooms have a name.
+            name = getattr(room, 'name', room.__class__.__name__)
             data['nodes'].append({
                 'id': id(room),
-                'name': room.name,
-                'label': room.name,
+                'name': name,
+                'label': name,
             })
 
         for a, b in upm.links:
-- 
2.43.0


From e75848c3f8d6a2c1a19eb7fade6cdb4c43b10c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:24 +0000
Subject: [PATCH 41/48] fix: link a room by a cell that it occupies

---
 redeclipse/upm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index e30ae89..80c1430 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -61,9 +61,12 @@ class UnusedPositionManager:
             yield room_copy
 
     def _yield_mirrored_positions(self, room):
+        # Not every room fills the cell at its own position.
+        cells = room.get_positions()
+        pos = room.pos if room.pos in cells else cells[0]
         for orientation in self.mirror_rotations:
             yield (
-                room.pos.offset_rotate(orientation, offset=CoarseVector(-16, -16, 0)),
+                pos.offset_rotate(orientation, offset=CoarseVector(-16, -16, 0)),
                 room.orientation.rotate(orientation)
             )
 
-- 
2.43.0


From 4f54d6dcdee0103ee139e98d3d88c1c4ca3c79e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:09 +0000
Subject: [PATCH 42/48] fix: mirrored transition probabilities apply in both
 directions

---
 redeclipse/prefabs/distributions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/redeclipse/prefabs/distributions.py b/redeclipse/prefabs/distributions.py
index 6c6457a..c2cf1c3 100644
--- a/redeclipse/prefabs/distributions.py
+++ b/redeclipse/prefabs/distributions.py
@@ -17,6 +17,11 @@ class DistributionManager:
             in self.transition_probabilities.keys()
             if k == clsname.room_type
         }
+        if self.mirror:
+            # A pair counts both ways, as in tp()
+            for (k, v), probability in self.transition_probabilities.items():
+                if v == clsname.room_type:
+                    filtered.setdefault(k, probability)
         return filtered
 
 
-- 
2.43.0


From 97cfb32ca79ade5e2ce9bbf1c5bb41085bb3981b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:38 +0000
Subject: [PATCH 43/48] fix: generate a mirrored map when --mirror is not given
 (as main does)

---
 redeclipse/cli/magica_rooms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/cli/magica_rooms.py b/redeclipse/cli/magica_rooms.py
index f3b1aa7..0bbeeca 100644
--- a/redeclipse/cli/magica_rooms.py
+++ b/redeclipse/cli/magica_rooms.py
@@ -131,7 +131,7 @@ if __name__ == '__main__':
     parser.add_argument('--rooms', default=200, type=int, help="Number of rooms to place")
     parser.add_argument('--debug', action='store_true', help="Debugging")
     parser.add_argument('--ctf', action='store_true', help="Include flags for CTFs")
-    parser.add_argument('--mirror', type=int, choices=[1, 2, 4], help="Mirror mode (1 = unmirrored, 2 = 2-way mirroring, 4 = 4-way mirroring)")
+    parser.add_argument('--mirror', default=2, type=int, choices=[1, 2, 4], help="Mirror mode (1 = unmirrored, 2 = 2-way mirroring, 4 = 4-way mirroring)")
     parser.add_argument('--flavor', nargs='*', choices=redeclipse.worldflavors.choices)
     args = parser.parse_args()
     # Build our map
-- 
2.43.0


From db838c297d5da92cec14c27f826de92774b1e9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:16 +0000
Subject: [PATCH 44/48] fix: keep the texture slots that have settings of their
 own

---
 redeclipse/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index fd64d17..55ba169 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -385,13 +385,14 @@ class MapParser(object):
                     vslots.append(VSlot(None, len(vslots)))
                 numvslots += changed
             else:
-                prev.append(self._read_int())
-                self._loadvslot(VSlot(None, len(vslots)), changed)
+                prev[len(vslots)] = self._read_int()
+                vslots.append(VSlot(None, len(vslots)))
+                self._loadvslot(vslots[-1], changed)
                 numvslots -= 1
 
-        for idx, v in enumerate(vslots):
-            if 0 <= idx < numvslots:
-                vslots[prev[idx]]._next = vslots[idx]
+        for vslot, before in zip(vslots, prev):
+            if 0 <= before < len(vslots):
+                vslots[before]._next = vslot
 
         return vslots, chg
 
-- 
2.43.0


From dcbaa2b9f6ece260e6669eedc4a2d151131b9545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:17 +0000
Subject: [PATCH 45/48] fix: read the settings of a texture slot into the
 fields it has

---
 redeclipse/__init__.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 55ba169..d6d43a6 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -5,6 +5,7 @@ from collections import OrderedDict
 from redeclipse.enums import EntType, Faces, VTYPE, OCT, TextNum
 from redeclipse.objects import VSlot, SlotShaderParam, cube, SurfaceInfo
 from redeclipse.vector import FineVector
+from redeclipse.vector.re import ivec2, vec2, vec3
 from redeclipse.entities import Entity
 from tqdm import tqdm
 import simplejson as json
@@ -428,11 +429,9 @@ class MapParser(object):
         if vs.changed & (1 << VTYPE.VSLOT_ROTATION.value):
             vs.rotation = self._read_int()
         if vs.changed & (1 << VTYPE.VSLOT_OFFSET.value):
-            vs.offset_x = self._read_int()
-            vs.offset_y = self._read_int()
+            vs.offset = ivec2(self._read_int(), self._read_int())
         if vs.changed & (1 << VTYPE.VSLOT_SCROLL.value):
-            vs.scroll_x = self._read_int()
-            vs.scroll_y = self._read_int()
+            vs.scroll = vec2(self._read_float(), self._read_float())
         if vs.changed & (1 << VTYPE.VSLOT_LAYER.value):
             vs.layer = self._read_int()
         if vs.changed & (1 << VTYPE.VSLOT_ALPHA.value):
@@ -440,11 +439,11 @@ class MapParser(object):
             vs.alphaback = self._read_float()
 
         if vs.changed & (1 << VTYPE.VSLOT_COLOR.value):
-            vs.colorscale = [
+            vs.colorscale = vec3(
                 self._read_float(),
                 self._read_float(),
                 self._read_float()
-            ]
+            )
         if vs.changed & (1 << VTYPE.VSLOT_PALETTE.value):
             vs.palette = self._read_int()
             vs.palindex = self._read_int()
-- 
2.43.0


From 4590305997b9b43c554a7c2e5f422f4f2044dc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:49 +0000
Subject: [PATCH 46/48] fix: restore the vectors of a texture slot from JSON

---
 redeclipse/objects.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redeclipse/objects.py b/redeclipse/objects.py
index f593275..cb09fca 100644
--- a/redeclipse/objects.py
+++ b/redeclipse/objects.py
@@ -66,6 +66,10 @@ class VSlot:
         v = VSlot(d['a'], d['b'])
         for prop in d['_order']:
             setattr(v, prop, d[prop])
+        # to_dict turned these into lists
+        v.offset = ivec2(*v.offset)
+        v.scroll = vec2(*v.scroll)
+        v.colorscale = vec3(*v.colorscale)
         return v
 
 
-- 
2.43.0


From 0291da07a7fa71f9cb6dafe3b64b70d3becc5b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:02 +0000
Subject: [PATCH 47/48] fix: show the merge mask of a cell in the JSON export

---
 redeclipse/objects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/redeclipse/objects.py b/redeclipse/objects.py
index cb09fca..e225658 100644
--- a/redeclipse/objects.py
+++ b/redeclipse/objects.py
@@ -235,6 +235,9 @@ class cube:
         if hasattr(self, 'totalverts'):
             d['totalverts'] = self.totalverts
 
+        if hasattr(self, 'merged'):
+            d['merged'] = self.merged
+
         return d
 
     def set_empty(self):
-- 
2.43.0


From ff25997791d9d77602af55115d5be1f082390a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:18 +0000
Subject: [PATCH 48/48] fix: give a colour one texture number whether its parts
 are ints or floats

---
 redeclipse/textures/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/textures/__init__.py b/redeclipse/textures/__init__.py
index 93957f2..2f65768 100644
--- a/redeclipse/textures/__init__.py
+++ b/redeclipse/textures/__init__.py
@@ -251,7 +251,7 @@ class AutomatedMagicaTextureManager(TextureManager):
         return self._get_colour(r, g, b)
 
     def _get_colour(self, r, g, b):
-        name = 'c_%s_%s_%s' % (r, g, b)
+        name = 'c_%s_%s_%s' % (float(r), float(g), float(b))
         if name not in self.atlas_backref:
             tmp = SimpleColourTex()
             tmp.r = r
-- 
2.43.0

