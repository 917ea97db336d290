#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why,
            "anchors": {
                "files": ["dustmaker/" + f for f in files],
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                "observe_at": list(observe),
                "hook_needed": None,
            },
        }
    )


prop(
    "C01",
    "Bit writer produces exactly the documented bit layout",
    "Whatever sequence of integer writes (any width, signed or unsigned value), byte writes, aligns, flushes and seeks is issued to a bit writer, the bytes that end up in the stream are exactly the written bits, least significant bit first, with zero bits as padding up to a byte boundary. The reported bit position and alignment always agree with that layout. Flushing, aligning or closing never drops, duplicates or moves a bit.",
    ["histories", "inputs"],
    "all sequences of writer operations, all widths, values and bit alignments",
    "The tests write one fixed 6-bit string and one variable tree; widths, alignments, back-seeks, and flush-then-continue histories are not sampled at all.",
    ["bitio.py"],
    [("BitIOWriter.write/write_bytes/flush/align/bit_seek/close", "dustmaker/bitio.py")],
    [("_bits/_bits_left/_tell", "pending partial byte and bit cursor", "dustmaker/bitio.py")],
    ["bytes in the underlying stream", "bit_tell()", "aligned()"],
)
prop(
    "C02",
    "Bit reader returns exactly the bits at its position",
    "Whatever sequence of reads (any width, signed or unsigned), byte reads, aligns, skips and seeks is issued to a bit reader inside the available data, each read returns exactly the bits at the current position, least significant bit first and sign-extended when requested. The reported bit position always equals the start position plus what was consumed, and align moves to the next byte boundary from any position, including one reached by a seek into the middle of a byte.",
    ["histories", "inputs"],
    "all sequences of reader operations over all stream contents, positions and widths",
    "The tests only read sequentially what was just written plus one set of seeks to 6-bit strings; signed reads inside one byte and align-after-seek are never exercised.",
    ["bitio.py"],
    [("BitIOReader.read/read_bytes, BitIO.align/skip/bit_seek", "dustmaker/bitio.py")],
    [("_bits/_bits_left/_tell", "buffered bits and bit cursor", "dustmaker/bitio.py")],
    ["return values of reads", "bit_tell()", "aligned()"],
)
prop(
    "C03",
    "Fixed-point numbers and 6-bit strings encode exactly and losslessly",
    "At every bit alignment, a number in range is stored as the sign / integer / fraction fields of the format and reads back within one unit of the stored resolution, exactly if it is representable, and every stored bit pattern reads back as the number it denotes. Every string of up to 63 characters over the 64-symbol alphabet is stored as its length and 6-bit symbol codes and reads back unchanged. Longer strings or other characters are refused with ValueError.",
    ["inputs"],
    "all strings over the alphabet, all numbers in range, all field widths in use, all alignments",
    "One fixed string, 128 random strings and two positive floats are sampled; negative fractions, field limits and rejected characters are not.",
    ["dfreader.py", "dfwriter.py"],
    [
        ("DFWriter.write_float / DFReader.read_float", "dustmaker/dfwriter.py, dustmaker/dfreader.py"),
        ("DFWriter.write_6bit_str / DFReader.read_6bit_str", "dustmaker/dfwriter.py, dustmaker/dfreader.py"),
    ],
    observe=["stream bits", "returned values"],
)
prop(
    "C04",
    "Variable trees and variable files survive write and read",
    "Any variable tree (bools, ints, uints, floats, strings, vec2s, nested structs and arrays) within the format limits is written in the Dustforce encoding at any bit alignment, including the continuation encoding of strings of 65535 bytes or more inside structs and arrays, and reads back as an equal tree with the same key order. A variable file additionally carries its header and its exact total size, and reading it gives the same mapping. Contents beyond the limits (65535 array slots, 65535 bytes for a bare string) are refused with ValueError instead of being written.",
    ["inputs"],
    "all variable trees, string lengths around every continuation boundary, all alignments, all file headers",
    "One tree with two long strings is round-tripped; exact multiples of the continuation width, nesting combinations, alignments and variable files are not, and a bug made in both reader and writer is invisible to a round trip.",
    ["dfreader.py", "dfwriter.py", "variable.py"],
    [
        ("DFWriter.write_variable / DFReader.read_variable", "dustmaker/dfwriter.py, dustmaker/dfreader.py"),
        ("DFWriter.write_var_file / DFReader.read_var_file", "dustmaker/dfwriter.py, dustmaker/dfreader.py"),
    ],
    observe=["stream bits", "decoded tree"],
)
prop(
    "C05",
    "Ill-typed or out-of-range variables can never be constructed",
    "Constructing a variable (structs from a dict, arrays from a list), or storing an element into an array variable, succeeds exactly when the value has the type and range of that variable kind, recursively through structs and arrays; otherwise it is refused with AssertionError and nothing changes. Re-validating a variable whose value was changed afterwards reports ValueError exactly when the value no longer fits. Containers take their own copy of the dict or list they are built from.",
    ["inputs", "histories"],
    "all combinations of variable kind and value, nested to a bounded depth, and all later mutations",
    "No test constructs an invalid variable or re-validates one.",
    ["variable.py"],
    [("Variable.__init__/assert_types and the per-type checks", "dustmaker/variable.py")],
    observe=["exceptions", "value attribute"],
)
prop(
    "C06",
    "Levels survive write and read",
    "Writing any level whose contents are within the ranges of the format and reading the bytes back yields a level with the same tiles (layer, position, shape, flags, sprite and per-edge data, filth included on the collision layer), props, entities (with type, attributes and variables), backdrop, level variables and thumbnail. Positions and prop scales come back at the stored resolution (whole pixels for props, 1/128 pixel for entities, the 56 scale steps), exactly when already representable. Objects are never lost, duplicated, moved or mixed up, whatever regions and segments they fall into and however many there are.",
    ["inputs"],
    "all levels: every field value, position (also negative and at segment/region borders), count and mixture of contents",
    "The end-to-end test only shows that one game level reaches a fixed point; it never compares contents and that level has no dustmod entity names, backdrop tiles or extreme values.",
    ["dfreader.py", "dfwriter.py", "level.py", "tile.py", "prop.py", "entity.py"],
    [
        ("write_level/write_level_ex, region and segment partition", "dustmaker/dfwriter.py"),
        ("read_level/read_region/read_segment", "dustmaker/dfreader.py"),
        ("tile and dust record packing", "dustmaker/tile.py"),
    ],
    observe=["contents of the re-read level"],
)
prop(
    "C07",
    "Written level files are well-formed Dustforce containers",
    "Every level file written decodes under an independent implementation of the file format to exactly the level's contents: all size, count, offset and version fields are consistent, regions appear in the required order, and each segment appears once. Every tile, prop and entity is stored in the region and segment that contains its position, for negative positions too. The per-segment dust, enemy and dustblock filth totals equal the filth stored in that segment, and the stored next-id is above every id in use.",
    ["inputs"],
    "all levels, with contents at all positions including negative ones and all mixtures of filth, enemies and dustmod entity names",
    "Tests only read files back with the matching reader, so layout errors the reader does not notice (or shares) pass.",
    ["dfwriter.py", "tile.py", "entity.py"],
    [
        ("region map and segment writer", "dustmaker/dfwriter.py"),
        ("region directory and header back-patching", "dustmaker/dfwriter.py"),
        ("FILTH class attributes", "dustmaker/entity.py"),
    ],
    observe=["bytes of the written file under an independent decoder"],
)
prop(
    "C08",
    "Well-formed level files of every supported version read correctly",
    "Any well-formed level file of a supported file and segment version, produced by an independent encoder with segments, records and padding laid out in any legal way, reads as exactly the contents it encodes. This includes the old and new prop encodings, absent thumbnails, extended entity names, skipped records with negative ids, filth records without a tile, and repeated ids, where the last one wins. Files with a wrong magic or an unsupported version are refused with LevelParseException.",
    ["inputs", "configurations"],
    "all legal layouts: file versions, segment versions, level types, record orders, optional sections",
    "Only one file (segment version 6, file version 44) is ever read by the tests and its contents are not compared with anything.",
    ["dfreader.py", "tile.py", "level.py"],
    [("read_level_ex/read_region/read_segment version switches", "dustmaker/dfreader.py")],
    observe=["contents of the read level", "exceptions"],
)
prop(
    "C09",
    "Metadata-only rewrites never disturb region data",
    "Reading only a level's metadata, changing its variables or thumbnail in any way, and writing it back with the untouched region bytes yields a file whose region data and region directory are identical to the original and whose full read equals the original level with only those metadata changed. This holds wherever the file starts in the stream, for any bit length of the variable section, and whether the region bytes are supplied whole or in pieces. Supplying a different amount of region data than announced is refused with LevelParseException.",
    ["inputs", "histories"],
    "all levels, all metadata edits (all bit lengths modulo 8), all chunkings of the region bytes, all stream offsets",
    "One unchanged level is rewritten in the tests; no edit, offset or chunking is tried.",
    ["dfreader.py", "dfwriter.py"],
    [("read_level_ex / write_level_ex raw region path", "dustmaker/dfreader.py, dustmaker/dfwriter.py")],
    observe=["bytes of the output", "re-read level"],
)
prop(
    "C10",
    "Replays survive write and read",
    "Writing any replay within the ranges of its format version and reading it back yields the same version, user name, level name, frame count, characters, entity desync frames (at the stored resolution) and, for every player, intent and frame number, the same intent value. This holds for runs of any length, with or without a stated total length, and when several replays follow each other in one stream. Neutral values at the very end of an intent list are the only thing that may be omitted. Looking up an intent gives the recorded value inside the recording and the neutral value before and behind it, and the desync data of player n and of its camera are those with the ids 2n and 2n + 1.",
    ["inputs"],
    "all replays: all intent sequences and run lengths, player counts, versions, name lengths",
    "One recorded replay reaches a fixed point in the tests; run lengths around 255, empty streams, multiple players, old versions and user names are not covered.",
    ["dfreader.py", "dfwriter.py", "replay.py"],
    [
        ("write_replay run-length encoder / read_replay decoder", "dustmaker/dfwriter.py, dustmaker/dfreader.py"),
        ("intent value conversions", "dustmaker/replay.py"),
    ],
    observe=["contents of the re-read replay", "stream position after reading"],
)
prop(
    "C11",
    "Replay files conform to the Dustforce replay format",
    "Every replay file written decodes under an independent implementation of the replay format to the replay's contents, with consistent length fields, intent streams in order and only the intents that exist in that version. Every replay encoded by an independent encoder in any legal way (split runs, several records of one entity, padding, header with user name, versions 1, 3 and 4) reads as what it encodes. Unknown versions are refused with LevelParseException on reading and on writing, and so is writing a version 1 replay without exactly one player.",
    ["inputs", "configurations"],
    "all replays and all legal encodings of them, all versions",
    "The tests check one version 1/3 file against its own re-encoding only.",
    ["dfreader.py", "dfwriter.py", "replay.py"],
    [("write_replay / read_replay", "dustmaker/dfwriter.py, dustmaker/dfreader.py")],
    observe=["bytes under an independent decoder", "contents read from independently encoded bytes"],
)
prop(
    "C12",
    "Truncated files are rejected, never hang and never load partially",
    "Reading any proper prefix of a replay file (with or without a stated length), or of a level file that has region data, terminates promptly with an exception. It never loops forever and never returns a partially loaded level or replay.",
    ["crash_points", "inputs"],
    "every truncation point of every file",
    "No test feeds incomplete data.",
    ["dfreader.py", "bitio.py"],
    [("read_replay decompression loop, read_region decompression", "dustmaker/dfreader.py")],
    observe=["exception or return within a step budget"],
)
prop(
    "C13",
    "Tile flips and rotations are rigid motions",
    "For every tile shape and every combination of 90 degree rotations and flips (at any scale or translation), transforming a tile gives the shape that is the geometric image of the original, and the data of each existing edge ends up on the geometric image of that edge, with its two corners exchanged and its join angles negated when mirrored. Sprite and tile flags are unchanged. Consequently transforming by any sequence of matrices equals transforming once by their product, and a matrix followed by its inverse restores the tile.",
    ["inputs", "histories"],
    "all shapes, all edge data, all flip/rotation matrices and all sequences of them",
    "Tests sample a few shapes with one rotation and two flips, with random data that never contains filth; compositions and most shapes are untested.",
    ["tile.py", "transform.py"],
    [("Tile.transform and the shape/side tables", "dustmaker/tile.py")],
    observe=["shape and edge_data of the transformed tile"],
)
prop(
    "C14",
    "Upscaling enlarges tiles and levels exactly",
    "Upscaling a tile or level by an integer factor yields tiles that exactly cover the enlarged original area, each at a distinct position inside its enlarged block and with the sprite and flags of the original. Edges lying on an original edge carry its data, with caps and angles only at that edge's own two ends, and all other edges are blank. In a level this holds for every tile, of the backdrop too, together with any flip, rotation or tile-aligned translation passed along, and the copies are independent of each other.",
    ["inputs"],
    "all shapes, factors, edge data, levels and additional matrices",
    "Tests cover factors 2 and 3 on four shapes of single tiles; level and backdrop upscaling are not tested.",
    ["tile.py", "level.py"],
    [("Tile.upscale", "dustmaker/tile.py"), ("Level.upscale", "dustmaker/level.py")],
    observe=["tiles produced"],
)
prop(
    "C15",
    "Transformation matrices compose like affine maps",
    "For all matrices and points, sampling a product equals sampling the right factor and then the left one, multiplication is associative with the identity as neutral element, a scalar multiple scales the sampled point, and an added translation equals multiplying by a translation matrix on the left. Determinant, mirror test and scale agree with the sampled geometry, the named constants are the clockwise rotations and flips they are documented to be, and sampling without offset ignores exactly the translation. Anything that is not a 3x3 numeric matrix with last row 0, 0, 1 is refused.",
    ["inputs"],
    "all matrices (entries from a bounded grid), all points, all products",
    "No test multiplies matrices that have translations.",
    ["transform.py"],
    [("TxMatrix.__mul__/translate/sample/determinant/scale", "dustmaker/transform.py")],
    observe=["returned matrices and points"],
)
prop(
    "C16",
    "Level transforms move all level contents together",
    "Any sequence of flips, rotations, translations and upscales applied to a level moves tiles, backdrop, props, entities and all four player starts by the same affine map: the area covered by the tiles is the image of the original area and every object and start position is at the image of its position. No tile is ever lost or merged: translating by any number of pixels, also fractions of a tile, shifts all tiles by one common whole number of tiles within half a tile of the request. Props and entities are turned by the same rotation, mirroring toggles their vertical flip and negates the rotation, and undoing a sequence of flips, rotations and whole-pixel translations restores the level.",
    ["histories", "inputs"],
    "all sequences of level transforms on all level contents",
    "No test transforms a level; only single tiles are transformed.",
    ["level.py", "transform.py", "entity.py", "prop.py", "tile.py"],
    [("Level.transform/translate/rotate/flip/upscale", "dustmaker/level.py"), ("Entity.transform, Prop.transform", "dustmaker/entity.py, dustmaker/prop.py")],
    observe=["positions and attributes after the sequence"],
)
prop(
    "C17",
    "Spatial data stored inside entities follows level transforms",
    "When a level is transformed, AI waypoints and a key's last known position move to the image of their position; checkpoint and end-zone trigger areas, which are relative to the entity, turn and scale with it but are not translated; death zone sizes turn and scale and stay non-negative. Camera zoom and width scale with the map, and the scale of every hittable entity is multiplied by the map's scale. All other entity variables are left unchanged.",
    ["inputs"],
    "all entity types, their stored values and all matrices",
    "No test transforms an entity.",
    ["entity.py"],
    [("transform overrides of the entity classes", "dustmaker/entity.py")],
    observe=["entity variables after Level.transform"],
)
prop(
    "C18",
    "Edge visibility follows the documented rules for every neighbourhood",
    "After edges are calculated, an edge is solid and visible exactly when it exists for the shape and is either not flush with the tile border or has no flush neighbour edge against it on the same layer; every other existing edge is not solid, is invisible if both tiles have the same sprite, and otherwise is visible as decided by the callback, or for bottom and right edges by default. Edges that do not exist are blank, the other data of existing edges is kept. Other layers, previous edge state and the order of tiles have no influence.",
    ["inputs", "configurations"],
    "all pairs and neighbourhoods of tile shapes, sprites, layers and previous edge data",
    "No test calls the calculation.",
    ["level.py", "tile.py"],
    [("Level.calculate_edge_visibility", "dustmaker/level.py")],
    observe=["solid/visible flags, callback arguments"],
)
prop(
    "C19",
    "Edge caps and join angles follow the documented rules",
    "After edge caps are calculated, each end of each visible edge has a cap exactly when no visible edge of the same side of an equally-sprited tile continues it; otherwise it has no cap and its angle is half the turn to the outermost continuing edge, rounded down in size, clockwise positive. Ends in the middle of a tile side never have a cap or angle. Filth caps and angles follow the same join when the filth matches, become a cap when it does not, are zero without filth, and invisible edges are cleared.",
    ["inputs", "configurations"],
    "all neighbourhoods of tile shapes, visibilities, sprites and filth",
    "No test calls the calculation.",
    ["level.py", "tile.py"],
    [("Level.calculate_edge_caps", "dustmaker/level.py")],
    observe=["caps, angles, filth_caps, filth_angles"],
)
prop(
    "C20",
    "Automatically allocated ids never collide",
    "After any history of adding (with or without explicit ids), removing, merging, remapping, recomputing the maximum id, writing and reading, adding a prop or entity without an id succeeds with an id that no prop or entity of the level or its backdrop has. Adding with an id already in use by the same kind is refused with LevelException and changes nothing; any other explicit id is accepted. The recomputed maximum id is the highest id in use, or 100 if that is higher, and new ids continue right after it; without reset, and through a file, the next id is never lowered.",
    ["histories"],
    "all histories of level operations up to a bounded length",
    "No test allocates an id.",
    ["level.py", "dfreader.py", "dfwriter.py"],
    [("Level id allocator, add_prop/add_entity/calculate_max_id/remap_ids/merge", "dustmaker/level.py")],
    [("next id", "lowest id not yet handed out, shared with the backdrop", "dustmaker/level.py")],
    ["ids returned, LevelException"],
)
prop(
    "C21",
    "Merging and remapping keep all contents and references",
    "Merging a level into another leaves the source unchanged and yields the target with every tile, prop, entity and backdrop object of both (source tiles win on the same cell, and with remapping no prop or entity is lost and the two levels' objects get no id in common); later changes to either level do not affect the other. Remapping gives every prop and entity a new distinct id at or above the requested minimum, keeps every object's content, and makes every id stored in an AI controller, camera node, level end, key door or custom score book follow the entity it referred to. Remapping never turns a reference to an entity that is not there into a reference to another entity.",
    ["histories", "inputs"],
    "all pairs of levels with overlapping ids and positions, all reference graphs, all minimum ids",
    "No test merges or remaps.",
    ["level.py", "entity.py"],
    [("Level.merge/remap_ids", "dustmaker/level.py"), ("Entity.remap_ids overrides", "dustmaker/entity.py")],
    observe=["contents and ids after the operation"],
)
prop(
    "C22",
    "Named properties are faithful typed views of the variables",
    "Each named property of levels, player starts and entities reads the documented variable and returns its default when absent; setting it stores a variable of the documented name and type and changes nothing else; deleting it removes exactly that variable, also when absent. A variable of another type under that name is reported with ValueError. Entities read from files have the class registered for their type name, and a plain entity with that name otherwise.",
    ["histories", "inputs"],
    "all classes and properties, all sequences of get, set and delete",
    "No test touches a property.",
    ["entity.py", "level.py"],
    [("bind_prop/bind_prop_arr, start_position, type registry", "dustmaker/entity.py, dustmaker/level.py")],
    observe=["property values and the variables mapping"],
)
prop(
    "C23",
    "Array variables behave like typed Python lists",
    "An array variable supports every mutable sequence operation with integer indices (indexing, assignment, deletion, insert, append, extend, pop, remove, reverse, clear, iteration, membership, index, count) with the same results and errors as a plain list of the unwrapped values, for all element types. Its elements remain variables of the declared element type throughout. The fog trigger's arrays are resized by normalization to the documented lengths, keeping existing entries and filling up with the neutral fog (colour 0x111118, coefficient 0, gradient 0), and its layer index addresses every documented layer and sublayer without overlap (first the 21 layers, then 21 entries per sublayer).",
    ["histories"],
    "all sequences of list operations up to a bounded length, all element types",
    "No test uses the sequence interface.",
    ["variable.py", "entity.py"],
    [("VariableArray sequence protocol", "dustmaker/variable.py"), ("FogTrigger.normalize/get_layer_index", "dustmaker/entity.py")],
    observe=["results of operations, written contents"],
)
prop(
    "C24",
    "Equality and hashing of tiles and variables agree",
    "Two tiles are equal exactly when shape, flags, sprite and all edge data are equal, and two variables exactly when kind and value are equal; equality is reflexive, symmetric and false against foreign objects. Every tile and every variable can be hashed, and equal objects hash equally, also the tiles that reading, transforming, upscaling, edge calculation and merging leave behind, so that they work in sets and as dictionary keys.",
    ["inputs"],
    "all pairs of tiles and variables",
    "The tests compare one pair of variables and never hash anything.",
    ["tile.py", "variable.py"],
    [("Tile.__eq__/__hash__, Variable.__eq__/__hash__", "dustmaker/tile.py, dustmaker/variable.py")],
    observe=["== and hash() results"],
)
prop(
    "C25",
    "JSON export and import of variables is lossless",
    "Exporting any variable tree to its JSON form and importing that JSON gives back an equal tree, also through JSON text, for all variable types, all byte values in strings, empty and nested arrays and structs. The document names each type by its documented name and writes values as plain JSON, so hand-written documents in this form are accepted as well. A tree whose arrays mix element layouts that one schema cannot describe is refused with ValueError rather than exported wrongly. The same holds for the command line tool on level files and on each kind of variable file, where everything except the variables stays byte for byte the same.",
    ["inputs"],
    "all variable trees, all file kinds",
    "No test runs the command line tools.",
    ["cmd/variables.py", "cmd/main.py"],
    [("variables_to_json/json_to_variables/merge_schema, Variables utility", "dustmaker/cmd/variables.py")],
    observe=["JSON output, re-imported variables, file bytes"],
)
prop(
    "C26",
    "Thumbnail and transform commands do exactly what they document",
    "The thumbnail command extracts exactly the stored image, refuses to overwrite an existing image without --force, and with --update replaces only the image (and marks it taken), leaving all other level data as it was. --auto-convert implies --update and stores the image as PNG, --auto-scale implies --auto-convert and stores it at 382 x 182. The transform command writes the level obtained by upscaling, then rotating, then flipping, then shifting by the given pixels, in that order, for every combination of its options, without changing the input file. A plain level that is upscaled becomes a dustmod level; other level types and options keep the type.",
    ["inputs", "configurations"],
    "all combinations of command line options on all levels",
    "No test runs the command line tools.",
    ["cmd/thumbnail.py", "cmd/transform.py", "cmd/main.py"],
    [("Thumbnail and Transform utilities", "dustmaker/cmd/thumbnail.py, dustmaker/cmd/transform.py")],
    observe=["files written, exit status"],
)
prop(
    "C27",
    "A failing command never damages existing files",
    "When a command line tool fails because of its input (malformed or unreadable files, bad JSON, schema or key names, contents that do not fit the format), every file that existed before, in particular the file it was asked to update or overwrite, is byte for byte unchanged, and no new file is left behind. Updating a level without any region data works like updating any other level.",
    ["fault_sequences", "inputs"],
    "all failing inputs of all tools at every stage (reading, converting, serializing)",
    "No test runs the command line tools, least of all on bad input.",
    ["cmd/variables.py", "cmd/thumbnail.py", "cmd/transform.py", "cmd/save_convert.py"],
    [("order of validation, serialization and opening the target", "dustmaker/cmd/*.py")],
    observe=["file bytes before and after"],
)
prop(
    "C28",
    "Save conversion keeps all scores and counts keys correctly",
    "Converting a vanilla save yields a dustmod save that holds each score of a standard level with its file name, combo, time, thoroughness, best time and overall value unchanged, in file name order, together with the key type of the level's tier. Scores of other levels are dropped, the wood, silver and gold keys used are the number of scored levels that need such a key, the red keys used are carried over, the new save is rooted at the empty name and not in new game plus, and the score books are carried over unchanged. This holds for any subset and order of scores, and through the command line tool.",
    ["inputs"],
    "all sets and orders of scores, all levels, missing and extra entries",
    "No test converts a save.",
    ["cmd/save_convert.py"],
    [("migrate_stats, SaveConvert utility", "dustmaker/cmd/save_convert.py")],
    observe=["variables of the converted save"],
)
prop(
    "C29",
    "Writing is pure and repeatable, and objects are isolated",
    "Writing a level, replay or variable tree does not change it, and writing it again, to another stream, at another byte offset of a stream or over existing content, gives the same bytes. Objects created, read or copied separately share no mutable state: changing one level, tile, prop, entity, replay or variable never changes another, and reading the same bytes again always gives the same contents.",
    ["histories"],
    "all histories of write, read, mutate and write again, over all content kinds",
    "Tests use each object once.",
    ["dfwriter.py", "dfreader.py", "level.py", "tile.py", "entity.py", "replay.py", "variable.py"],
    [("constructors and copies; writer back-patching relative to the start position", "dustmaker/*.py")],
    observe=["bytes and snapshots before and after"],
)
prop(
    "C30",
    "Streams are flushed completely and closed exactly as requested",
    "Closing a reader or writer, directly, repeatedly or by leaving its context even through an exception, closes the underlying stream unless it was told not to, in which case the stream stays open and usable. After a writer is closed every bit written is in the underlying stream, for buffered, raw and in-memory streams alike and also when the raw stream accepts only part of each write; a failing write is reported by some call and the stream is closed nevertheless. Readers and writers work on streams that cannot seek or tell, as long as no seek is requested, and whole levels, replays and variable files can be read from such streams.",
    ["fault_sequences", "histories"],
    "all kinds of streams, close/release histories and short-write patterns",
    "Tests only use in-memory streams and files that are closed with the writer.",
    ["bitio.py"],
    [("BitIO.close/release, BitIOWriter stream wrapping", "dustmaker/bitio.py")],
    observe=["closed flag and contents of the underlying stream"],
)
prop(
    "C31",
    "Sprite and filth helpers of a tile agree with its data",
    "For every tile the sprite tuple is exactly its sprite set, tile number and palette, and setting it changes exactly these three. A tile counts as a dustblock exactly when its sprite set has a dustblock and its tile number is that one; turning a tile into a dustblock selects the dustblock of its current sprite set with palette 1 and changes nothing else, and is refused with ValueError, changing nothing, where the set has none. A tile has filth exactly when one of its edges has a filth sprite set, and the sprite path names the set, the number and the palette counted from one. A new tile has the documented defaults and four blank edges of its own.",
    ["inputs", "histories"],
    "all sprites, all filth combinations and all histories of sprite changes up to the bound",
    "No test calls these helpers.",
    ["tile.py"],
    [("Tile.get_sprite_tuple/set_sprite_tuple/sprite_path/has_filth/is_dustblock/set_dustblock", "dustmaker/tile.py"), ("SPRITE_SET_DUSTBLOCK_TILE", "dustmaker/tile.py")],
    observe=["helper results and the tile's public attributes"],
)
prop(
    "C32",
    "Names of the API mean the documented values in game files",
    "Every member of every enumeration (tile shapes, sides and sprite sets, level types, variable types, characters, intent streams, mouse buttons, camera node types) has the number the game files use for it, in both directions, and an object set by name is stored with that number and read back under that name. Every shipped entity class stores its own type name and is the class found when that name is read; unknown type names stay plain entities with the name kept; entity classes a user defines with a type name are used by the reader and writer from then on, only for that name. New levels, backdrops, tiles, edges, entities, replays, players and frames have the documented defaults, and two new objects share no mutable state.",
    ["inputs", "configurations"],
    "all names, all classes, all combinations of tile names in files, user-defined classes up to three levels of inheritance",
    "Tests touch a handful of names; a wrong number round-trips through the library's own reader and writer unnoticed.",
    ["tile.py", "level.py", "entity.py", "replay.py", "variable.py", "dfreader.py", "dfwriter.py"],
    [("enumerations", "dustmaker/tile.py"), ("LevelType, Level defaults", "dustmaker/level.py"), ("TYPE_IDENTIFIER of the entity classes", "dustmaker/entity.py"), ("Character, IntentStream, MouseState", "dustmaker/replay.py")],
    observe=["enumeration values, bytes of written files, classes and names after reading"],
)
prop(
    "C33",
    "Independent uses do not interfere, however they are interleaved",
    "Two uses of the library on separate objects and streams (reading or writing levels, replays, variable files or bits, transforming, calculating edges, merging and remapping, reading and setting properties, exporting to JSON, converting saves) have exactly the results they have alone when they run in different threads, whatever the points at which execution switches between them. The same holds when one use happens inside another: from the edge visibility callback, from the iterable that supplies region data, or from the methods of the stream that is being read or written.",
    ["schedules"],
    "all interleavings of two uses with one switch at any line, and with two switches up to the bound; all nested uses",
    "Tests run one operation after the other; shared scratch state shows only when a switch falls between its being set and used.",
    ["dfwriter.py", "dfreader.py", "bitio.py", "level.py", "tile.py", "entity.py", "variable.py"],
    [("all module-level and class-level state", "dustmaker/*.py"), ("visible_callback, region_data", "dustmaker/level.py, dustmaker/dfwriter.py")],
    observe=["results of both uses compared with the results alone"],
)

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
