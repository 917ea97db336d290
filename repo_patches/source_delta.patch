From 9c1afd81015fe71d9fb30c39db8f8bd09f8dcc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:01 +0000
Subject: [PATCH 01/27] fix: sign-extend signed bit reads served from buffered
 bits

---
 dustmaker/bitio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 534cc32..3683d83 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -113,6 +113,8 @@ class BitIOReader(BitIO):
             self._bits = self._bits >> bits
             self._bits_left -= bits
             self._tell += bits
+            if signed and bits > 0 and result & (1 << bits - 1):
+                result -= 1 << bits
             return result
 
         # Read in needed data from underlying stream.
-- 
2.43.0


From e046923f9565186a1bda057eb8ff56cacf7aec64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:01 +0000
Subject: [PATCH 02/27] fix: BitIOWriter.flush moves to the next byte boundary
 so the byte is not written twice

---
 dustmaker/bitio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 3683d83..1d9871d 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -237,6 +237,9 @@ class BitIOWriter(BitIO):
         """
         if self._bits_left != 0 and self._bits != -1:
             self.data.write(bytes((self._bits,)))
+            self._tell += self._bits_left
+            self._bits = 0
+            self._bits_left = 0
 
     def align(self) -> None:
         """Seeks the stream forward to the nearest byte boundary. This does
-- 
2.43.0


From 5ba88bc6b6c9addaee986358e0bab7e151d65970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:01 +0000
Subject: [PATCH 03/27] fix: align after a mid-byte seek skips the rest of that
 byte

---
 dustmaker/bitio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 1d9871d..ad3aff8 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -56,6 +56,9 @@ class BitIO:
         """Seeks the stream forward to the nearest byte boundary. This does
         not require :attr:`data` to support seek itself.
         """
+        if self._bits == -1:
+            # We did a seek mid-byte and data is still at that lead byte.
+            self.data.seek(1, io.SEEK_CUR)
         self._tell += self._bits_left
         self._bits = 0
         self._bits_left = 0
-- 
2.43.0


From b9379f2536ae77da4a24e819667b2d9057c63b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:28 +0000
Subject: [PATCH 04/27] fix: objects at negative positions are stored in the
 segment that contains them

---
 dustmaker/dfwriter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dustmaker/dfwriter.py b/dustmaker/dfwriter.py
index 90201b9..7443cbd 100644
--- a/dustmaker/dfwriter.py
+++ b/dustmaker/dfwriter.py
@@ -109,12 +109,12 @@ def _compute_region_map(level: Level) -> _RegionMap:
         rmap.get_segment(tx, ty).tiles[layer].append((tx & 0xF, ty & 0xF, tile))
 
     for id_num, (x, y, entity) in level.entities.items():
-        rmap.get_segment(int(x / 48), int(y / 48)).entities.append(
+        rmap.get_segment(floor(x / 48), floor(y / 48)).entities.append(
             (id_num, x, y, entity)
         )
 
     for id_num, (layer, x, y, prop) in level.props.items():
-        rmap.get_segment(int(x / 48), int(y / 48)).props.append(
+        rmap.get_segment(floor(x / 48), floor(y / 48)).props.append(
             (id_num, layer, x, y, prop)
         )
 
@@ -127,7 +127,7 @@ def _compute_region_map(level: Level) -> _RegionMap:
         seg.tiles[layer].append((x & 0xF, y & 0xF, tile))
 
     for id_num, (layer, x, y, prop) in level.backdrop.props.items():
-        seg = rmap.get_region(int(x / 48), int(y / 48)).backdrop
+        seg = rmap.get_region(floor(x / 48), floor(y / 48)).backdrop
         seg.present = True
         seg.props.append((id_num, layer, x, y, prop))
 
-- 
2.43.0


From 7fba41716a5917c5e9a221a0cd25c17be28c090f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:49 +0000
Subject: [PATCH 05/27] fix: decode backdrop props by the level type of the
 parent level

---
 dustmaker/dfreader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dustmaker/dfreader.py b/dustmaker/dfreader.py
index 6a754df..5a69615 100644
--- a/dustmaker/dfreader.py
+++ b/dustmaker/dfreader.py
@@ -218,7 +218,9 @@ class DFReader(BitIOReader):
                 layer_sub = self.read(8)
 
                 scale = 1.0
-                if version > 6 or level.level_type == LevelType.DUSTMOD:
+                # Only the parent level of a backdrop knows the level type.
+                root = level if level.parent is None else level.parent
+                if version > 6 or root.level_type == LevelType.DUSTMOD:
                     x_sgn = self.read(1)
                     x_int = self.read(27)
                     x_scale = (self.read(4) & 0x7) ^ 0x4
-- 
2.43.0


From fe6d2adc20e23b4f3024a46c23a67d5bfd873177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:51 +0000
Subject: [PATCH 06/27] fix: a truncated replay is rejected instead of being
 read forever

---
 dustmaker/dfreader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dustmaker/dfreader.py b/dustmaker/dfreader.py
index 5a69615..fa8d989 100644
--- a/dustmaker/dfreader.py
+++ b/dustmaker/dfreader.py
@@ -515,7 +515,10 @@ class DFReader(BitIOReader):
             input_data = bytearray()
             decomp = zlib.decompressobj()
             while not decomp.eof:
-                input_data += decomp.decompress(self.read_bytes(1))
+                next_byte = self.read_bytes(1)
+                if not next_byte:
+                    raise LevelParseException("unexpected end of replay data")
+                input_data += decomp.decompress(next_byte)
 
         with DFReader(io.BytesIO(input_data)) as sub_reader:
             inputs_len = sub_reader.read(32)  # pylint: disable=unused-variable
-- 
2.43.0


From 8076c63e83d3e5c12cf08562a0c243109fdbbbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:26 +0000
Subject: [PATCH 07/27] fix: matrix product keeps the y translation of the left
 factor

---
 dustmaker/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/transform.py b/dustmaker/transform.py
index c2f8891..83f4fa8 100644
--- a/dustmaker/transform.py
+++ b/dustmaker/transform.py
@@ -85,7 +85,7 @@ class TxMatrix(tuple):
                 (
                     ml[1][0] * mr[0][0] + ml[1][1] * mr[1][0],
                     ml[1][0] * mr[0][1] + ml[1][1] * mr[1][1],
-                    ml[1][0] * mr[0][2] + ml[1][1] * mr[1][2] + ml[0][2],
+                    ml[1][0] * mr[0][2] + ml[1][1] * mr[1][2] + ml[1][2],
                 ),
                 (0, 0, 1),
             )
-- 
2.43.0


From 1bfc65e4f0733ef23ed95167838ac2721c83b35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:26 +0000
Subject: [PATCH 08/27] fix: translating by half a tile no longer merges
 neighbouring tiles

---
 dustmaker/level.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index cfd88d0..583dc8d 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -304,7 +304,12 @@ class Level:
                 tile.transform(mat)
                 tx, ty = mat.sample(x * 48, y * 48)
 
-                yield (layer, int(round(tx / 48.0)), int(round(ty / 48.0))), tile
+                # Always round halves up so that adjacent tiles cannot collide.
+                yield (
+                    layer,
+                    math.floor(tx / 48.0 + 0.5),
+                    math.floor(ty / 48.0 + 0.5),
+                ), tile
 
         def _transform_props():
             for id_num, (layer, x, y, prop) in self.props.items():
-- 
2.43.0


From 78f75dd31768c6b7b5a0acc40b5f743e078c81cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:22 +0000
Subject: [PATCH 09/27] fix: flipping or rotating a level moves its tiles along
 with its objects

---
 dustmaker/level.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index 583dc8d..b5dc7dc 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -299,16 +299,23 @@ class Level:
             script persist data.
         """
 
+        # Offset in whole tiles, the same for all tiles.
+        offx = round(mat[0][2] / 48)
+        offy = round(mat[1][2] / 48)
+
         def _transform_tiles():
             for (layer, x, y), tile in self.tiles.items():
                 tile.transform(mat)
-                tx, ty = mat.sample(x * 48, y * 48)
+                # Transform the center of the tile and step back to the top left
+                # corner of the square it maps to.
+                tx, ty = mat.sample(x + 0.5, y + 0.5, with_offset=False)
+                tx, ty = tx - mat.scale / 2, ty - mat.scale / 2
 
                 # Always round halves up so that adjacent tiles cannot collide.
                 yield (
                     layer,
-                    math.floor(tx / 48.0 + 0.5),
-                    math.floor(ty / 48.0 + 0.5),
+                    math.floor(tx + 0.5) + offx,
+                    math.floor(ty + 0.5) + offy,
                 ), tile
 
         def _transform_props():
-- 
2.43.0


From e8632ac87ebd8f3b5952def4315ad566f2b27e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:22 +0000
Subject: [PATCH 10/27] fix: translate backdrop tiles by their own size

---
 dustmaker/level.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index b5dc7dc..567ab27 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -299,9 +299,11 @@ class Level:
             script persist data.
         """
 
-        # Offset in whole tiles, the same for all tiles.
-        offx = round(mat[0][2] / 48)
-        offy = round(mat[1][2] / 48)
+        # Offset in whole tiles, the same for all tiles. Backdrop tiles are 16
+        # times as large as those of the level.
+        tile_size = 48 if self.parent is None else 48 * 16
+        offx = round(mat[0][2] / tile_size)
+        offy = round(mat[1][2] / tile_size)
 
         def _transform_tiles():
             for (layer, x, y), tile in self.tiles.items():
-- 
2.43.0


From 9e141c24fb067258aa8e6a039acec76d9cc8d6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:22 +0000
Subject: [PATCH 11/27] fix: upscaling a level also upscales its backdrop tiles

---
 dustmaker/level.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index 567ab27..b54a0c0 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -376,11 +376,14 @@ class Level:
                 to :meth:`transform` along with the upscaling.
         """
         self.transform(mat * factor)
-        self.tiles = {
-            (layer, x + dx, y + dy): ntile
-            for (layer, x, y), tile in self.tiles.items()
-            for dx, dy, ntile in tile.upscale(factor)
-        }
+        for level in (self, self.backdrop):
+            if level is None:
+                continue
+            level.tiles = {
+                (layer, x + dx, y + dy): ntile
+                for (layer, x, y), tile in level.tiles.items()
+                for dx, dy, ntile in tile.upscale(factor)
+            }
 
     def calculate_edge_visibility(
         self,
-- 
2.43.0


From 5514120259b6ecc6564c3d2ed896951cbdda7c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:22 +0000
Subject: [PATCH 12/27] fix: upscaled tiles keep the tile flags

---
 dustmaker/tile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dustmaker/tile.py b/dustmaker/tile.py
index 13b18f6..5cc94c1 100644
--- a/dustmaker/tile.py
+++ b/dustmaker/tile.py
@@ -350,7 +350,7 @@ class Tile:
         if self.shape == TileShape.FULL:
             for dx in range(factor):
                 for dy in range(factor):
-                    tile = Tile(TileShape.FULL)
+                    tile = Tile(TileShape.FULL, tile_flags=self.tile_flags)
                     tile.set_sprite_tuple(self.get_sprite_tuple())
 
                     if dx == 0:
@@ -368,7 +368,7 @@ class Tile:
             for dx in range(factor):
                 ddx = dx + (factor if self.shape == TileShape.SMALL_1 else 0)
                 for dy in range(ddx // 2, factor):
-                    tile = Tile(TileShape.FULL)
+                    tile = Tile(TileShape.FULL, tile_flags=self.tile_flags)
                     tile.set_sprite_tuple(self.get_sprite_tuple())
 
                     if dy == ddx // 2:
@@ -384,7 +384,7 @@ class Tile:
         elif self.shape == TileShape.HALF_A:
             for dx in range(factor):
                 for dy in range(dx, factor):
-                    tile = Tile(TileShape.FULL)
+                    tile = Tile(TileShape.FULL, tile_flags=self.tile_flags)
                     tile.set_sprite_tuple(self.get_sprite_tuple())
 
                     if dx == dy:
-- 
2.43.0


From ac9fb67326dd15d98a5f5ec5e1bf3c99cb54f35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:00 +0000
Subject: [PATCH 13/27] fix: edge join angles are rounded down as documented

---
 dustmaker/level.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index b54a0c0..1a07691 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -581,7 +581,8 @@ class Level:
                     if delta_angle > math.pi:
                         delta_angle -= 2 * math.pi
 
-                    angle = -int(round(delta_angle * 180 / math.pi / 2))
+                    # Round down in size; first cut off the floating point error.
+                    angle = -int(round(delta_angle * 180 / math.pi / 2, 6))
 
                     # Set caps and angles based on joiner
                     caps[dr] = False
-- 
2.43.0


From f813ef6ca9005c6fa9203e831b625a025ec23391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:18 +0000
Subject: [PATCH 14/27] fix: edges join the outermost of several continuing
 edges as documented

---
 dustmaker/level.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index 1a07691..b488a24 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -545,7 +545,7 @@ class Level:
                     else:  # Slants
                         # No caps allowed on slant half edges
                         continue
-                    if dr:
+                    if not dr:
                         ddirs = ddirs[::-1]
 
                     for dx, dy in ddirs:
-- 
2.43.0


From ed3334364c5c7e38eccf104b6cb59ad05d7f5de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:25 +0000
Subject: [PATCH 15/27] fix: calculate_max_id is never below 100 or the ids
 already handed out

---
 dustmaker/level.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index b488a24..baf5f3f 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -250,10 +250,9 @@ class Level:
                 allocator will be reset based off this result. Otherwise the max
                 ID will be at least one less than the next ID.
         """
-        init = 100 if reset else self._next_id - 1
+        init = 100 if reset else max(100, self._next_id - 1)
 
-        # pylint: disable=nested-min-max
-        mx_id = max(max(self.props, default=init), max(self.entities, default=init))
+        mx_id = max((init, *self.props, *self.entities))
 
         if self.backdrop is not None:
             mx_id = max(mx_id, self.backdrop.calculate_max_id())
-- 
2.43.0


From 923a53489eb95fce877fb26159f926fb6c172c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:25 +0000
Subject: [PATCH 16/27] fix: ids taken over by merging without remapping are
 not handed out again

---
 dustmaker/level.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index baf5f3f..882f37e 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -274,6 +274,8 @@ class Level:
         self.tiles.update(copy.deepcopy(other_level.tiles))
         self.props.update(copy.deepcopy(other_level.props))
         self.entities.update(copy.deepcopy(other_level.entities))
+        for id_num in (*other_level.props, *other_level.entities):
+            self._note_id(id_num)
         if self.backdrop is not None and other_level.backdrop is not None:
             self.backdrop.merge(other_level.backdrop, remap_ids=False)
 
-- 
2.43.0


From 0ba707b36e12172460ab040de80b879e4367f27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:25 +0000
Subject: [PATCH 17/27] fix: remap the string list id of custom score books

---
 dustmaker/entity.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dustmaker/entity.py b/dustmaker/entity.py
index 683fdb1..7e50546 100644
--- a/dustmaker/entity.py
+++ b/dustmaker/entity.py
@@ -845,6 +845,11 @@ class CustomScoreBook(Entity):
 
     TYPE_IDENTIFIER = "custom_score_book"
 
+    def remap_ids(self, id_map: Dict[int, int]) -> None:
+        """Remap the string list ID."""
+        super().remap_ids(id_map)
+        self.level_list = id_map.get(self.level_list, 0)
+
     level_list = bind_prop("level_list_id", VariableInt, 0, "ID of StringList entity")
 
 
-- 
2.43.0


From dbb06a1b4f8dd7a96a7a0059b9e82a7ed2354a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:41 +0000
Subject: [PATCH 18/27] fix: tiles can be hashed

---
 dustmaker/tile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustmaker/tile.py b/dustmaker/tile.py
index 5cc94c1..a42ad58 100644
--- a/dustmaker/tile.py
+++ b/dustmaker/tile.py
@@ -34,7 +34,7 @@ class TileSide(IntEnum):
     RIGHT = 3
 
 
-@dataclass
+@dataclass(unsafe_hash=True)
 class TileEdgeData:
     """Data class for data stored on each tile edge. Many attributes are stored
     as pairs of data to correspond to the two corners of the tile edge. These
@@ -180,7 +180,7 @@ class Tile:
         return (
             self.shape,
             self.tile_flags,
-            self.edge_data,
+            tuple(self.edge_data),
             self.sprite_set,
             self.sprite_tile,
             self.sprite_palette,
-- 
2.43.0


From 03f3534976c840e4516dc12a5cb934c328ff6b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:41 +0000
Subject: [PATCH 19/27] fix: struct and array variables can be hashed

---
 dustmaker/variable.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dustmaker/variable.py b/dustmaker/variable.py
index fac7d69..a405a96 100644
--- a/dustmaker/variable.py
+++ b/dustmaker/variable.py
@@ -172,6 +172,10 @@ class VariableStruct(Variable):
     def __init__(self, value: Optional[Dict[str, Variable]] = None) -> None:
         super().__init__(dict(value or {}))
 
+    # Need to hash an immutable form of value.
+    def __hash__(self):
+        return hash((self._vtype, frozenset(self.value.items())))
+
     def _assert_types(self) -> None:
         """Ensure value is dictionary of strs to Variables."""
         assert isinstance(self.value, dict)
@@ -209,6 +213,10 @@ class VariableArray(Variable, collections.abc.MutableSequence):
     ) -> None:
         super().__init__((element_type, list(values or [])))
 
+    # Need to hash an immutable form of value.
+    def __hash__(self):
+        return hash((self._vtype, self.value[0], tuple(self.value[1])))
+
     @property
     def element_type(self) -> Type[Variable]:
         """Element type of this array"""
-- 
2.43.0


From a73f6d57e0017050ed5225b69fe77478360f3903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:41 +0000
Subject: [PATCH 20/27] fix: fog layer index covers all 25 sublayers

---
 dustmaker/entity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/entity.py b/dustmaker/entity.py
index 7e50546..aeb5e9c 100644
--- a/dustmaker/entity.py
+++ b/dustmaker/entity.py
@@ -329,7 +329,7 @@ class FogTrigger(Trigger):
         assert 0 <= layer <= 20
         if sublayer is None:
             return layer
-        assert 0 <= sublayer <= 20
+        assert 0 <= sublayer <= 24
         return (sublayer + 1) * 21 + layer
 
     speed = bind_prop("fog_speed", VariableFloat, 5.0)
-- 
2.43.0


From 3ad0f7b54290ffa97bbff1615c144b29bdc8ab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:13 +0000
Subject: [PATCH 21/27] fix: arrays of arrays can be exported to JSON

---
 dustmaker/cmd/variables.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustmaker/cmd/variables.py b/dustmaker/cmd/variables.py
index 6c35489..42cc922 100755
--- a/dustmaker/cmd/variables.py
+++ b/dustmaker/cmd/variables.py
@@ -54,6 +54,9 @@ def merge_schema(lhs: Any, rhs: Any) -> Any:
                 result[subkey] = merge_schema(r_subschema, subschema)
         return result
     if isinstance(lhs, list) and isinstance(rhs, list):
+        if not lhs or not rhs:
+            # Nothing is known about the elements of one of the arrays.
+            return lhs or rhs
         return [merge_schema(lhs[0], rhs[0])]
     if not isinstance(lhs, str) or not isinstance(rhs, str):
         raise ValueError("unmergable schemas")
-- 
2.43.0


From 388be4e69128b5f9bda59cf0c6b02b2ef8442469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:31 +0000
Subject: [PATCH 22/27] fix: a command that fails to serialize its result
 leaves the existing file alone

---
 dustmaker/cmd/common.py       | 20 +++++++++++++++++++-
 dustmaker/cmd/save_convert.py | 10 ++++++----
 dustmaker/cmd/thumbnail.py    | 10 ++++++----
 dustmaker/cmd/transform.py    |  7 +++----
 dustmaker/cmd/variables.py    |  5 +++--
 5 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/dustmaker/cmd/common.py b/dustmaker/cmd/common.py
index 37b51a3..39681a1 100644
--- a/dustmaker/cmd/common.py
+++ b/dustmaker/cmd/common.py
@@ -2,7 +2,10 @@
 
 import abc
 import argparse
-from typing import Type
+import io
+from typing import Callable, Type
+
+from dustmaker import DFWriter
 
 
 class CliUtility(metaclass=abc.ABCMeta):
@@ -25,6 +28,21 @@ class CliUtility(metaclass=abc.ABCMeta):
         """
 
 
+def write_output(path: str, write: Callable[[DFWriter], None]) -> None:
+    """Write a file. The contents are serialized completely before the file is
+    opened so that an existing file is left alone if that fails.
+
+    Arguments:
+        path (str): path of the file to write.
+        write (Callable[[DFWriter], None]): writes the contents of the file.
+    """
+    with io.BytesIO() as data:
+        with DFWriter(data, noclose=True) as writer:
+            write(writer)
+        with open(path, "wb") as fout:
+            fout.write(data.getvalue())
+
+
 def run_utility(utility: Type[CliUtility]) -> int:
     """Run a single command line utility.
 
diff --git a/dustmaker/cmd/save_convert.py b/dustmaker/cmd/save_convert.py
index fe0ed80..1e95b97 100755
--- a/dustmaker/cmd/save_convert.py
+++ b/dustmaker/cmd/save_convert.py
@@ -6,8 +6,8 @@ import argparse
 import sys
 from typing import Any
 
-from dustmaker import DFReader, DFWriter
-from dustmaker.cmd.common import CliUtility, run_utility
+from dustmaker import DFReader
+from dustmaker.cmd.common import CliUtility, run_utility, write_output
 from dustmaker.variable import (
     VariableArray,
     VariableBool,
@@ -173,8 +173,10 @@ class SaveConvert(CliUtility):
         if not isinstance(stats, dict):
             raise ValueError("found unexpected data in stats0")
         stats_new = migrate_stats(stats)
-        with DFWriter(open(args.stats1, "wb")) as writer:
-            writer.write_var_file(self.HEADER, stats_new)
+        write_output(
+            args.stats1,
+            lambda writer: writer.write_var_file(self.HEADER, stats_new),
+        )
         return 0
 
 
diff --git a/dustmaker/cmd/thumbnail.py b/dustmaker/cmd/thumbnail.py
index bdb487d..efa0bb9 100755
--- a/dustmaker/cmd/thumbnail.py
+++ b/dustmaker/cmd/thumbnail.py
@@ -7,8 +7,8 @@ import io
 import os
 import sys
 
-from dustmaker import DFReader, DFWriter
-from dustmaker.cmd.common import CliUtility, run_utility
+from dustmaker import DFReader
+from dustmaker.cmd.common import CliUtility, run_utility, write_output
 from dustmaker.variable import VariableBool
 
 
@@ -97,8 +97,10 @@ class Thumbnail(CliUtility):
                 level.sshot = fimg.read()
 
         level.variables["icon_taken"] = VariableBool(True)
-        with DFWriter(open(args.level, "wb")) as writer:
-            writer.write_level_ex(level, region_offsets, region_data)
+        write_output(
+            args.level,
+            lambda writer: writer.write_level_ex(level, region_offsets, region_data),
+        )
 
         return 0
 
diff --git a/dustmaker/cmd/transform.py b/dustmaker/cmd/transform.py
index 96fb739..e696175 100755
--- a/dustmaker/cmd/transform.py
+++ b/dustmaker/cmd/transform.py
@@ -5,8 +5,8 @@ Sample script to perform level transforms
 import argparse
 import sys
 
-from dustmaker import DFReader, DFWriter
-from dustmaker.cmd.common import CliUtility, run_utility
+from dustmaker import DFReader
+from dustmaker.cmd.common import CliUtility, run_utility, write_output
 from dustmaker.level import LevelType
 from dustmaker.transform import TxMatrix
 
@@ -92,8 +92,7 @@ class Transform(CliUtility):
         else:
             level.transform(mat)
 
-        with DFWriter(open(args.output_level, "wb")) as writer:
-            writer.write_level(level)
+        write_output(args.output_level, lambda writer: writer.write_level(level))
 
 
 if __name__ == "__main__":
diff --git a/dustmaker/cmd/variables.py b/dustmaker/cmd/variables.py
index 42cc922..0f27937 100755
--- a/dustmaker/cmd/variables.py
+++ b/dustmaker/cmd/variables.py
@@ -8,7 +8,7 @@ import sys
 from typing import Any, Dict, Tuple, Type
 
 from dustmaker import DFReader, DFWriter
-from dustmaker.cmd.common import CliUtility, run_utility
+from dustmaker.cmd.common import CliUtility, run_utility, write_output
 from dustmaker.variable import (
     Variable,
     VariableArray,
@@ -208,7 +208,7 @@ class Variables(CliUtility):
 
         variables = json_to_variables(jdata["schema"], jdata["vars"])
 
-        with DFWriter(open(args.object, "wb")) as writer:
+        def _write(writer: DFWriter) -> None:
             if header == b"DF_LVL":
                 assert level and region_offsets and region_data
                 level.variables = variables.value
@@ -216,6 +216,7 @@ class Variables(CliUtility):
             else:
                 writer.write_var_file(header, variables.value)
 
+        write_output(args.object, _write)
         return 0
 
     @staticmethod
-- 
2.43.0


From 22e55e5a864970d82eb5adb8d805db432efad09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:31 +0000
Subject: [PATCH 23/27] fix: variables of a level without regions can be
 updated

---
 dustmaker/cmd/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/cmd/variables.py b/dustmaker/cmd/variables.py
index 0f27937..72f0d07 100755
--- a/dustmaker/cmd/variables.py
+++ b/dustmaker/cmd/variables.py
@@ -210,7 +210,7 @@ class Variables(CliUtility):
 
         def _write(writer: DFWriter) -> None:
             if header == b"DF_LVL":
-                assert level and region_offsets and region_data
+                assert level is not None and region_data is not None
                 level.variables = variables.value
                 writer.write_level_ex(level, region_offsets, region_data)
             else:
-- 
2.43.0


From af89745013fb8fcb9853e51582b6109fe888dfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:31 +0000
Subject: [PATCH 24/27] fix: the transform command shifts the level after
 upscaling it

---
 dustmaker/cmd/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dustmaker/cmd/transform.py b/dustmaker/cmd/transform.py
index e696175..6becbd1 100755
--- a/dustmaker/cmd/transform.py
+++ b/dustmaker/cmd/transform.py
@@ -81,9 +81,6 @@ class Transform(CliUtility):
         if args.hflip:
             mat = TxMatrix.HFLIP * mat
 
-        # Add in the translations
-        mat = mat.translate(args.translate_x, args.translate_y)
-
         if args.upscale > 1:
             # Need dustmod level type for proper scaling of entities/props
             if level.level_type == LevelType.NORMAL:
@@ -92,6 +89,9 @@ class Transform(CliUtility):
         else:
             level.transform(mat)
 
+        # Shift last so that the offset is not upscaled
+        level.translate(args.translate_x, args.translate_y)
+
         write_output(args.output_level, lambda writer: writer.write_level(level))
 
 
-- 
2.43.0


From 98b0288ceb9ab9c6b7600479676aed4cadcc31ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:31 +0000
Subject: [PATCH 25/27] fix: releasing a raw stream leaves everything written
 in it and keeps it open

---
 dustmaker/bitio.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index ad3aff8..b4a5ba5 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -159,7 +159,8 @@ class BitIOWriter(BitIO):
     """Bit writer wrapper for a data stream."""
 
     def __init__(self, data: BinaryIO, *, noclose: bool = False) -> None:
-        if not isinstance(data, io.BufferedIOBase):
+        self._wrapped = not isinstance(data, io.BufferedIOBase)
+        if self._wrapped:
             data = io.BufferedWriter(data)  # type: ignore
         super().__init__(data, noclose=noclose)
 
@@ -225,6 +226,10 @@ class BitIOWriter(BitIO):
         """
         try:
             self.flush()
+            if self._noclose and self._wrapped:
+                # Hand the stream back before the wrapper would close it.
+                self._wrapped = False
+                self.data = self.data.detach()  # type: ignore
         finally:
             super().close()
 
-- 
2.43.0


From c4d78ee77db697da9b996a9b6156506358924af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:31 +0000
Subject: [PATCH 26/27] fix: the first region offset is written even over
 existing data

---
 dustmaker/dfwriter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dustmaker/dfwriter.py b/dustmaker/dfwriter.py
index 7443cbd..4975611 100644
--- a/dustmaker/dfwriter.py
+++ b/dustmaker/dfwriter.py
@@ -549,8 +549,10 @@ class DFWriter(BitIOWriter):
         """
         rmap = _compute_region_map(level)
         region_dir_index = self.bit_tell()
-        region_data_index = (region_dir_index + 32 * len(rmap.region_map) + 7) & ~0x7
-        self.bit_seek(region_data_index)
+        for _ in rmap.region_map:
+            self.write(32, 0)
+        self.align()
+        region_data_index = self.bit_tell()
         region_offsets = []
 
         # Write the region data
-- 
2.43.0


From 95ca2dc4d698d805fdf6893cec81f8d6df66edb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:13 +0000
Subject: [PATCH 27/27] fix: releasing and closing a writer of a raw stream
 again after closing it is allowed

---
 dustmaker/bitio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index b4a5ba5..0eae5a4 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -226,7 +226,7 @@ class BitIOWriter(BitIO):
         """
         try:
             self.flush()
-            if self._noclose and self._wrapped:
+            if self._noclose and self._wrapped and not self.data.closed:
                 # Hand the stream back before the wrapper would close it.
                 self._wrapped = False
                 self.data = self.data.detach()  # type: ignore
-- 
2.43.0

