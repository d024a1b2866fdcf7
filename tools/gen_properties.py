#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
S = "src/sqrid/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [S + f for f in files],
            "state": [{"name": a, "meaning": b, "where": S + c} for a, b, c in state],
            "mechanism": [{"name": a, "where": S + b} for a, b in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        }})

prop("C01", "Bounded integer arithmetic and conversions are exact and stay in range",
     "Creating a bounded integer, or converting any value of any builtin integer type to it, succeeds exactly when the mathematical value lies within its bounds and then holds that exact value; otherwise an error is returned (or the unwrapping constructor panics). Checked addition and subtraction, increment and decrement return the exact mathematical result when it lies within the bounds and nothing otherwise, and the default value is the in-range value closest to zero. Values never wrap, truncate or leave the bounds, comparisons agree with the numbers, and the minimum and maximum are the declared bounds.",
     ["inputs", "configurations", "histories"],
     "every bounded integer type, every pair of bounds, every operand and every sequence of operations",
     "The tests use a handful of u8/i8-like ranges and values; they do not reach the extremes of the underlying types, values congruent modulo the width of the source or target types, nor ranges that exclude zero.",
     ["boundedint.rs"], [("boundedint_type_create!", "boundedint.rs"), ("boundedint_impl_tryfrom!", "boundedint.rs"), ("BoundedInt", "boundedint.rs")],
     [("value", "the held integer", "boundedint.rs")], ["return values of the public methods"])

prop("C02", "Bounded integer iteration yields each value once, from either end",
     "Iterating a bounded integer interval yields every value from start to end exactly once, in increasing order from the front and in decreasing order from the back, and the two ends meet without repeating or skipping a value. Once all values have been produced, from whichever end, every further request from either end yields nothing. This includes intervals that touch the extremes of the underlying type and single-value intervals.",
     ["inputs", "histories", "configurations"],
     "every interval of every integer type and every interleaving of front and back requests, including requests after the end",
     "Tests collect a few whole ranges forward or reversed; they do not interleave both ends in every way nor poll after exhaustion at type extremes.",
     ["boundedint.rs"], [("BoundedIntIterator", "boundedint.rs")],
     [("start/end", "remaining interval", "boundedint.rs")], ["next, next_back"])

prop("C03", "Positions exist only inside the grid and conversions preserve coordinates",
     "Every way of building a position from coordinates (checked, panicking, compile-time, from tuples of any supported integer type, from another position type) succeeds exactly when both coordinates lie inside the grid, and the position then reports exactly those coordinates; otherwise an error is returned (or a panic for the unwrapping form). The different constructors and accessors always agree with each other, and converting a position back to a tuple gives the original coordinates. No input wraps around or is truncated into the grid.",
     ["inputs", "configurations"],
     "every grid size, every coordinate pair of every source type, including huge and negative values and pairs congruent to valid ones",
     "Tests try a few in-range and out-of-range coordinates on small grids.",
     ["pos.rs", "postrait.rs", "boundedint.rs"], [("Pos::new, TryFrom impls", "pos.rs"), ("PosT::new, PosT::tryfrom_pos", "postrait.rs")], (), ["return values"])

prop("C04", "Positions and linear indexes are in row-major bijection",
     "Converting a position to an index gives y * width + x, and converting an index to a position succeeds exactly for the indexes below width * height and is the inverse of it. The reported width, height and total size, and the first and last positions, agree with the coordinate limits; the constants for width and height count the possible coordinates also where those are signed.",
     ["inputs", "configurations"],
     "every position type with coordinates starting at zero, every position and every index, including indexes far out of range",
     "Tests check round trips on a few small, mostly square grids, where transposing width and height is invisible.",
     ["postrait.rs", "pos.rs"], [("PosT::to_usize, PosT::tryfrom_usize", "postrait.rs")], (), ["to_usize, tryfrom_usize, From/TryFrom usize"])

prop("C05", "Position iterators visit every position once, in order, from either end",
     "Horizontal iteration yields all positions of the grid in reading order and vertical iteration yields them in column order, each exactly once, with requests from the back producing the exact reverse and both ends meeting without repeats or gaps; nothing is yielded after the end. Stepping to the next or previous position (horizontally or vertically) moves by one place in the same order and yields nothing past the last or before the first. Iteration over one column or one line yields exactly the positions of that column or line in increasing order.",
     ["inputs", "histories", "configurations"],
     "every grid shape, every interleaving of front and back requests, every starting position, row and column",
     "Tests collect whole sequences on one or two shapes; they do not mix both ends, poll past the end, or use degenerate and asymmetric shapes.",
     ["postrait.rs"], [("PosTIter", "postrait.rs"), ("next, next_y, prev, prev_y", "postrait.rs"), ("PosTIterInX, PosTIterInY", "postrait.rs")],
     [("cur/end", "remaining positions", "postrait.rs")], ["next, next_back"])

prop("C06", "Range iteration yields exactly the positions of the rectangle",
     "For any two positions where the first is not to the right of nor below the second, iterating the range between them yields each position of that rectangle (borders included) exactly once, in reading order, and nothing else, and then keeps yielding nothing. Rectangles that touch the last line or column of the grid are no exception.",
     ["inputs", "configurations", "histories"],
     "every grid shape and every rectangle in it, including single cells, full lines, full columns and the whole grid",
     "Tests iterate a couple of rectangles in the interior of one grid.",
     ["postrait.rs"], [("PosTIterRange", "postrait.rs")], [("value", "next position to yield", "postrait.rs")], ["iter_range"])

prop("C07", "Moving in a direction reaches the exact neighbour or reports out of bounds",
     "Adding a direction to a position or to a coordinate tuple gives exactly the neighbouring coordinates in that direction when both lie within the coordinate types' bounds, and an out-of-bounds error otherwise; it never wraps around or panics. After a successful move, moving in the opposite direction leads back to the start. The operator forms and the helper functions all agree.",
     ["inputs", "configurations", "histories"],
     "every grid shape and coordinate type (signed and bounded ones included), every position and direction, every walk",
     "Tests move around a few positions of one grid; borders of extreme and asymmetric types are not covered in all eight directions.",
     ["dir.rs", "posdir.rs", "boundedint.rs"], [("Add<Dir> for (T, U)", "dir.rs"), ("Add<Dir> for Pos, pos_dir_add, pos_dir_add_ok", "posdir.rs")], [("position", "current coordinates of a walk", "posdir.rs")], ["results of +"])

prop("C08", "Directions form a compass with exact turning, reversal and enumeration",
     "Rotating and adding directions behaves as adding angles of 45 degrees modulo a full turn, and reversing a direction is a half turn, equal to negation and the opposite vector. The diagonals are exactly the four intermediate directions. Enumeration yields the eight (or, without diagonals, four) directions once each in clockwise order from north, and the successor of a direction is the next one in that enumeration, or nothing after the last; asking for it never panics.",
     ["inputs", "histories"],
     "every pair of directions, both diagonal settings, and every sequence of turns",
     "Tests check a sample of rotations; successor was never asked for diagonals without diagonals enabled.",
     ["dir.rs"], [("Dir::rotate, Dir::flip, Dir::next, DirIter", "dir.rs")], [("heading", "current direction", "dir.rs")], ["results"])

prop("C09", "Direction vectors, characters and names round-trip and reject everything else",
     "Each direction converts to its unit vector (x to the east, y to the south) in every signed integer type, and exactly those eight vectors convert back, to the same direction, with every other pair rejected. A character or one-character string is accepted as a direction exactly when it is the direction's UTF-8 arrow, its ASCII symbol, or one of the letters N, E, S, W in either case, and gives that direction; every other character and every string of any other length is rejected. The names of a direction are consistent with each other and with how it is displayed.",
     ["inputs"],
     "all characters, all strings, all integer pairs of every signed type",
     "Tests check the listed symbols and one or two invalid inputs.",
     ["dir.rs"], [("tuple_conv_i_impl!", "dir.rs"), ("TryFrom<char>, FromStr, Display", "dir.rs")], (), ["results"])

prop("C10", "Distance, containment, borders and bounding boxes are geometrically exact",
     "The manhattan distance is |dx| + |dy| (the largest number possible where this is larger). A position is inside the area given by any two opposite corners, in any order, exactly when it lies between them inclusively, and it is a corner or on a side exactly when both or one of its coordinates are extreme. The bounding box of a non-empty sequence of positions is the smallest rectangle that contains them all, an empty sequence is an error, and the named positions (first, last, corners, and the center, rounded towards the origin) have the expected coordinates.",
     ["inputs", "configurations"],
     "every grid shape and type of coordinates (signed ones and the widest integers included), all pairs and triples of positions, and every sequence of positions",
     "Tests check a few pairs on one grid.",
     ["postrait.rs", "pos.rs"], [("manhattan, inside, is_corner, is_side, tlbr_of", "postrait.rs"), ("Pos constants", "pos.rs")], (), ["results"])

prop("C11", "The direction towards another position always makes progress",
     "The direction from one position to another is nothing exactly when they are equal. With diagonals it is the direction whose vector is the sign of the difference in each coordinate; without diagonals it is a cardinal direction that points along an axis in which they differ, towards the target. Repeatedly following it therefore reaches the target in max(|dx|,|dy|) steps with diagonals and |dx|+|dy| steps without.",
     ["inputs", "configurations", "histories"],
     "every pair of positions of every position type, both diagonal settings, and the whole walk that follows the directions",
     "Tests check a few pairs of one grid size.",
     ["posdir.rs"], [("direction_to", "posdir.rs")], [("position", "current position of the walk", "posdir.rs")], ["direction_to"])

prop("C12", "Position flips and rotations are the exact geometric symmetries",
     "Flipping a position horizontally or vertically mirrors exactly that coordinate within the grid and is its own inverse. On square grids, rotating clockwise maps (x, y) to (max - y, x), rotating counterclockwise is its inverse, and four rotations are the identity. Distances between positions are unchanged by any of them.",
     ["inputs", "configurations", "histories"],
     "every grid shape (every square size for rotations), every position and every sequence of symmetries",
     "Tests check a few positions of small grids, often at their fixed points.",
     ["postrait.rs"], [("flip_h, flip_v, rotate_cw, rotate_cc", "postrait.rs")], [("position", "transformed position", "postrait.rs")], ["results"])

prop("C13", "A grid is an independent cell per position through every access path",
     "Reading a position of a grid returns the value most recently stored there, or the initial one, whichever way it was written and is read: indexing by value or reference, get and get_mut, whole lines, the underlying array, mutable and immutable iteration, iteration with positions, negation, and extending from position-value pairs. A write changes no other position. Iterations and arrays list the values in reading order, and copies are independent and compare equal exactly when all cells are equal.",
     ["histories", "inputs", "configurations"],
     "every grid shape and every sequence of reads and writes through any combination of access paths",
     "Tests write with one path and read with another on one shape, over short fixed sequences.",
     ["grid.rs", "postrait.rs"], [("Grid indexing, line, iter, extend", "grid.rs"), ("PosT::to_usize", "postrait.rs")], [("cells", "array of values", "grid.rs")], ["all read paths"])

prop("C14", "Bulk loading a grid places every value or reports the misfit",
     "Building a grid from a sequence places its values in reading order and panics unless the sequence has exactly as many values as the grid has positions. Building a grid from nested lists places item x of list y at (x, y) and fills the rest with defaults, succeeding exactly when the lists fit in the grid. Extending a grid from nested lists overwrites exactly the given places and keeps the others, and returns an error when some item has no place in the grid, having stored the items before it and nothing outside their places.",
     ["inputs", "configurations"],
     "every grid shape and all lists of lists: ragged, empty, too long in either direction, by one or by multiples of 65536",
     "Tests load well-formed input and one oversized case on small grids.",
     ["grid.rs"], [("FromIterator, TryFrom<Vec<Vec<T>>>, extend_from_vecvec", "grid.rs")], [("cells", "array of values", "grid.rs")], ["results and contents"])

prop("C15", "Grid flips and rotations move every value to its mirrored place",
     "After flipping a grid horizontally or vertically, or rotating a square grid clockwise or counterclockwise, every value is at the place where the same symmetry takes its former position, and no value is lost or duplicated. Flips undo themselves, opposite rotations cancel out, and four equal rotations restore the grid.",
     ["inputs", "configurations", "histories"],
     "every grid shape with even and odd dimensions (1xN and Nx1 included), every content, every sequence of symmetries",
     "Tests use one or two small grids, where whole rings and the middle lines of other parities are not exercised.",
     ["grid.rs", "postrait.rs"], [("Grid::flip_h, flip_v, rotate_cw, rotate_cc", "grid.rs")], [("cells", "array of values", "grid.rs")], ["contents after each operation"])

prop("C16", "A bit grid is exactly the set of positions stored in it",
     "A bit grid reports true for exactly the positions set to true and not set to false afterwards, whichever way they are written (set, set true, set false, bulk set, building from positions or booleans, all-true and all-false) and read (get, indexing, the iterations over values, over positions with values, over true and over false positions). A write changes no other position, and building from a boolean sequence of the wrong length panics.",
     ["histories", "inputs", "configurations"],
     "every grid shape, in particular sizes around multiples of the 32-bit words, and every sequence of writes",
     "Tests set and read back single bits in a few sizes.",
     ["gridbool.rs"], [("Gridbool::byte_bit, set_t, set_f, get", "gridbool.rs")], [("words", "bitmap", "gridbool.rs")], ["all read paths"])

prop("C17", "Bit grid flips and rotations move every bit to its mirrored place",
     "After flipping a bit grid horizontally or vertically, or rotating a square bit grid clockwise or counterclockwise, the true positions are exactly the images of the former true positions under that symmetry. Flips undo themselves, opposite rotations cancel out, and four equal rotations restore the bit grid.",
     ["inputs", "configurations", "histories"],
     "every grid shape with even and odd dimensions, every set of positions, every sequence of symmetries",
     "Tests use one or two small bit grids.",
     ["gridbool.rs"], [("Gridbool::flip_h, flip_v, rotate_cw, rotate_cc", "gridbool.rs")], [("words", "bitmap", "gridbool.rs")], ["contents after each operation"])

prop("C18", "Bit grids are equal and hash equally exactly when they hold the same positions",
     "Two bit grids compare as equal exactly when the same positions are true in both, regardless of the history of operations that led to them (filling, setting, clearing, flipping, rotating, building from positions or booleans). Equal bit grids have equal hashes, and ordering them is a total order consistent with equality.",
     ["histories", "configurations"],
     "every grid shape, in particular sizes that do not fill the last word or leave whole words unused, and every pair of histories",
     "Tests compare bit grids that were built in the same way.",
     ["gridbool.rs"], [("derived Eq/Hash/Ord on the words; Gridbool::repeat", "gridbool.rs")], [("words", "bitmap and its padding bits", "gridbool.rs")], ["==, cmp, hash"])

prop("C19", "All map and set backends store positions identically",
     "The three map backends return for each position the value last stored for it, or the initial value, and the three set backends contain exactly the positions inserted and not removed since, including through the combined insert-or-remove operation. All backends therefore answer every sequence of operations identically.",
     ["histories", "configurations"],
     "every sequence of operations, on every backend and every grid shape",
     "Tests use the backends only inside the searches.",
     ["mappos.rs", "setpos.rs"], [("MapPos impls", "mappos.rs"), ("SetPos impls", "setpos.rs")], [("contents", "stored associations", "mappos.rs")], ["get, contains"])

prop("C20", "Breadth-first iteration yields each reachable position once, by distance",
     "The n-th step of a breadth-first iteration yields exactly the positions whose shortest distance from the origin under the movement function is n (counting from 1), each once across the whole iteration, never the origin and never an unreachable position, and ends when there are none left. The direction that comes with each position points back to a position of the previous step from which the movement function leads to it.",
     ["inputs", "configurations", "histories"],
     "every movement function (walls, one-way and arbitrary), every origin, both diagonal settings, every grid shape, integer type of coordinates (signed and very wide ones included) and backend",
     "Tests enumerate an open grid and a few mazes.",
     ["bf.rs", "setpos.rs"], [("BfIterator", "bf.rs")], [("visited, nextfront", "exploration state", "bf.rs")], ["next"])

prop("C21", "Breadth-first search returns a shortest valid path to a nearest goal",
     "A breadth-first path search succeeds exactly when a goal position other than the origin is reachable. It then returns a goal at the smallest distance among the reachable goals, and a path of exactly that many steps which the movement function allows at every step from the origin to that goal; otherwise it reports that the destination is unreachable.",
     ["inputs", "configurations"],
     "every movement function whose moves lead to the neighbouring position, every origin, every goal predicate, both diagonal settings, every grid shape, integer type of coordinates (signed and very wide ones included) and backend",
     "Tests check path lengths on a few mazes with one goal.",
     ["bf.rs", "mappos.rs"], [("search_path", "bf.rs"), ("camefrom_into_path", "mappos.rs")], [("from", "came-from map", "bf.rs")], ["bfs_path*"])

prop("C22", "A* search returns a valid path with the fewest steps",
     "An A* path search succeeds exactly when the destination is reachable from the origin, and the returned path is allowed by the movement function at every step, ends at the destination and has the fewest possible steps, with or without diagonals; the path is empty when the origin is the destination. Otherwise it reports that the destination is unreachable.",
     ["inputs", "configurations"],
     "every movement function whose moves lead to the neighbouring position, every origin and every destination (also where nothing leads), both diagonal settings, every grid shape, integer type of coordinates (signed and very wide ones included) and backend",
     "Tests check lengths on a few mazes, mostly without diagonals, where an inadmissible estimate or an outdated frontier entry has no effect.",
     ["astar.rs", "mappos.rs"], [("AstarIterator", "astar.rs")], [("cost, frontier", "exploration state", "astar.rs")], ["astar_path*"])

prop("C23", "Uniform-cost iteration yields each reachable position once, cheapest first",
     "Uniform-cost iteration yields the origin first and then every position reachable from it exactly once, in non-decreasing order of their cheapest total cost from the origin. The direction that comes with each position other than the origin is the last step, reversed, of one of its cheapest paths, taken from a position that was yielded before it.",
     ["inputs", "configurations", "histories"],
     "every movement-cost function (zero, uneven, directed and huge costs), every origin, both diagonal settings, every grid shape, integer type of coordinates (signed and very wide ones included) and backend",
     "Tests use unit costs, where no position is ever reached again more cheaply.",
     ["ucs.rs", "mappos.rs"], [("UcsIterator", "ucs.rs")], [("cost, frontier", "exploration state", "ucs.rs")], ["next"])

prop("C24", "Uniform-cost search returns a valid path of minimal total cost",
     "A uniform-cost path search succeeds exactly when the destination is reachable from the origin, and the returned path is allowed by the movement function at every step, ends at the destination and its total cost is the smallest possible; the path is empty when the origin is the destination. Otherwise it reports that the destination is unreachable, and large costs never overflow into a wrong answer or a panic.",
     ["inputs", "configurations"],
     "every movement-cost function whose moves lead to the neighbouring position (zero and huge costs included), every origin and every destination (also where nothing leads), both diagonal settings, every grid shape, integer type of coordinates (signed and very wide ones included) and backend",
     "Tests use unit costs and one weighted example.",
     ["ucs.rs", "mappos.rs"], [("search_path", "ucs.rs")], [("cost, frontier", "exploration state", "ucs.rs")], ["ucs_path*"])

prop("C25", "Search algorithms and storage backends agree with each other",
     "For the same problem, every storage backend of an algorithm and every way of calling it reports the same reachability and equally long (or equally expensive) paths. With unit costs, the breadth-first, A* and uniform-cost searches agree on reachability and path length, and the path to a position is as long as the step at which the breadth-first iteration yields it.",
     ["inputs", "configurations"],
     "every movement function, every pair of distinct origin and destination, both diagonal settings and every grid shape",
     "Tests compare a few mazes.",
     ["bf.rs", "astar.rs", "ucs.rs", "mappos.rs", "setpos.rs"], [("search_path_grid, search_path_hash, search_path_btree and Sqrid plugins", "bf.rs")], (), ["results of all searches"])

prop("C26", "Path reconstruction from a came-from map ends with the exact outcome",
     "Reconstructing a path returns the reversed sequence of the directions found by following the map from the destination to the origin, however long it is. It reports an unreachable destination when the map has nothing for the destination, an invalid movement when the trail stops at a position without a direction or leaves the grid, and a loop when the trail never reaches the origin. It always terminates.",
     ["inputs", "configurations"],
     "every came-from map (cycles and dangling trails included), every origin and destination, every grid shape, integer type of coordinates (signed and very wide ones included) and backend, paths that visit every position included",
     "Tests follow one loop and the short trails that searches produce.",
     ["mappos.rs"], [("camefrom_into_path", "mappos.rs")], [("pos, maxiter", "trail position and budget", "mappos.rs")], ["result"])

prop("C27", "Size hints always bracket the number of items actually left",
     "At every moment of any iteration offered by the library, the lower bound of the size hint is at most the number of items that the iterator will still yield, and the upper bound, if given, is at least that number, before, during and after the iteration, from whichever end items are taken.",
     ["inputs", "histories", "configurations"],
     "every iterator (integers, positions, ranges, lines, columns, directions, grid and bit grid contents, searches), every grid shape and every prefix of requests",
     "Tests look at the hint of fresh iterators only.",
     ["postrait.rs", "dir.rs", "boundedint.rs", "gridbool.rs", "grid.rs"], [("size_hint", "postrait.rs"), ("DirIter::size_hint", "dir.rs")], [("cur/end", "remaining items", "postrait.rs")], ["size_hint"])

prop("C28", "Grids are displayed with every cell under its column and beside its line",
     "Displaying a grid or bit grid prints, for each line of the grid in order, one text line with the line number right-aligned in a label column followed by the line's cells in order (with the requested padding, and truncated as requested), framed above and below by the column numbers written vertically, one digit per text line, right-aligned. Bit grids show '#' for true and '.' for false. Positions, bounded integers and directions are displayed as (x,y), their number and their compass name.",
     ["inputs", "configurations"],
     "every grid shape (in particular around 10, 100 and 1000 columns or lines), every content and padding",
     "Tests compare one or two rendered grids.",
     ["grid.rs", "gridbool.rs", "pos.rs", "dir.rs"], [("display_fmt_helper", "grid.rs")], (), ["formatted text"])

prop("C29", "Storage parameters that don't fit the grid are rejected at compile time",
     "Creating a grid type whose declared size differs from width * height, or a bit grid type whose number of words can't hold one bit per position or has more than one word to spare, is rejected by the compiler at whichever constructor is used. Matching parameters, and the types produced by the helper macros for any dimensions, are always accepted. Compile-time constructors likewise reject out-of-range constants.",
     ["programs", "configurations"],
     "every combination of dimensions and storage parameters and every constructor",
     "The check can only fail at compile time, so ordinary tests can't exercise it; documentation tests only try one matching example.",
     ["grid.rs", "gridbool.rs", "base.rs", "pos.rs", "boundedint.rs"], [("impl_assert!", "grid.rs"), ("grid_create!, gridbool_create!, sqrid_create!", "base.rs")], (), ["compiler verdict"])

prop("C30", "A* iteration yields each reachable position once, by a shortest path",
     "A* iteration yields the origin first and then every position reachable from it exactly once, whatever the destination. The direction that comes with each position other than the origin is the last step, reversed, of one of the shortest paths to it, taken from a position that was yielded before it. After the last position it keeps yielding nothing.",
     ["inputs", "configurations", "histories"],
     "every movement function whose moves lead to the neighbouring position, every origin and every destination (also where nothing leads), both diagonal settings, every grid shape, integer type of coordinates (signed and very wide ones included) and backend",
     "Tests only look at the resulting paths, not at the iteration, and not at positions that come up after the destination.",
     ["astar.rs", "mappos.rs"], [("AstarIterator", "astar.rs")], [("cost, frontier", "exploration state", "astar.rs")], ["next"])

prop("C31", "Values are equal, ordered and hashed by what they hold",
     "Two positions, bounded integers, directions or grids (also those of booleans) of the same type are equal exactly when they hold the same coordinates, number, direction or cells, whichever way they were made, and equal values have equal hashes. Comparing them is a total order that is consistent with equality, in all forms (comparison operators, cmp, partial_cmp, min, max, sorting), and is the numeric order for bounded integers; so sorted and hashed collections hold each value once. Grids compare by the comparisons of their cells, also where those ignore some of what the cells hold, or where some can't be compared (like NaN).",
     ["inputs", "configurations"],
     "every position type, bounded integer type and grid type, and all values, pairs and triples of them",
     "Tests compare a few values for equality; order and hashes only appear inside of the collections that searches use.",
     ["pos.rs", "boundedint.rs", "dir.rs", "grid.rs", "gridbool.rs"], [("Pos", "pos.rs"), ("Grid", "grid.rs"), ("Gridbool", "gridbool.rs"), ("Dir", "dir.rs")], (), ["results of comparisons and hashes"])

prop("C32", "Searches only ask about positions they have reached",
     "During a breadth-first, A* or uniform-cost iteration or search, the movement function is only called with the origin or positions that it has returned before, and only with the considered directions: all eight with diagonals, the four cardinal ones without. The goal predicate is only called with positions that were reached in that way.",
     ["inputs", "configurations", "histories"],
     "every movement function, every origin, destination and goal predicate, both diagonal settings, every algorithm, entry point and backend",
     "Tests pass movement functions that are defined everywhere, and don't look at how they are called.",
     ["bf.rs", "astar.rs", "ucs.rs"], [("BfIterator", "bf.rs"), ("AstarIterator", "astar.rs"), ("UcsIterator", "ucs.rs")], [("frontier", "positions to look around from", "astar.rs")], ["calls of the movement function and goal predicate"])

prop("C33", "Grids own their values: every value is dropped exactly once",
     "A grid holds exactly one value per position at all times. Every value that is stored in a grid stays alive and in its place until it is overwritten, taken out or the grid ends, and then it is dropped exactly once, or handed over to the user if it was taken out or moved out by value. This includes values given to constructions that fail, because there are too few, too many or misplaced ones, or because the source, the default value or a clone panics half way: nothing is leaked or dropped twice, and a grid that was there before remains as it was, or holds the values that were stored until then. Transformations move values without dropping or cloning any; clones consist of one clone of each value.",
     ["histories", "inputs", "fault_sequences", "configurations"],
     "every grid shape, every sequence of constructions, stores, replacements, transformations, clones and partial consumptions, with a panic at any callback",
     "Tests use integers and characters, for which a value that is leaked, duplicated or dropped twice is invisible, and no test panics in the middle of an operation.",
     ["grid.rs"], [("Default, FromIterator, TryFrom<Vec<Vec<T>>>, Extend, IntoIterator", "grid.rs"), ("flip_h, flip_v, rotate_cw, rotate_cc", "grid.rs")], [("values", "array of values", "grid.rs")], ["births and drops of the values, contents, results"])

for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
