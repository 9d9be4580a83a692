import json
def P(id,title,statement,over,text,why,files,mech):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=mech,where=files[0])],hook_needed=None))
B="src/topology/build.rs"; T="src/topology/types.rs"; N="src/normalize.rs"; G="src/geo/mod.rs"
CT="src/clip/topology.rs"; CE="src/clip/edge.rs"; CY="src/clip/types.rs"; SE="src/simplify/simplify_edge.rs"; SM="src/simplify/mod.rs"
SH="src/read/shapefile/shp.rs"; DB="src/read/shapefile/dbf.rs"; SF="src/read/shapefile/shapefile.rs"; SG="src/read/shapefile/geo.rs"; RM="src/read/shapefile/mod.rs"
ps=[
P("C01","Building a topology keeps every region's geometry and data",
 "A topology built from a list of regions has exactly the regions with at least one non-zero-area outer ring, in the order they were added and with their own data. Each has its non-zero-area outer and inner rings, in order and in the same outer/inner role, and walking a ring's edges in their stated directions visits exactly the ring's input paths in order, except that zero-length pieces are left out. Building never fails as long as no path bounds more than two rings.",
 ["inputs","histories"],"all lists of regions, ring representations (point lists or edge lists), directions and u32 coordinates in which no path bounds more than two rings",
 "Tests build a handful of tiny topologies; they cannot cover all directions, shapes, degenerate pieces and coordinate sizes.",[B,T,G],"add_region/build_ring drop zero-area rings and canonicalise each edge; into_topology rebuilds rings from edge ids and directions"),
P("C02","Each path is stored once and shared by the rings on both sides",
 "In a built or normalized topology no two edges have the same points, read in either direction, and every open path is stored starting from its smaller (leftmost, then topmost) end, every closed path (of non-zero area) clockwise. Every input path of a kept ring is stored as one edge, with exactly its points. Two rings that run along the same input path, in the same or opposite directions, refer to the same single edge, with equal or opposite directions respectively.",
 ["inputs","histories"],"all lists of regions in which no path bounds more than two rings, and their normalizations (closed paths of zero area excepted)",
 "Tests check sharing for one pair of adjacent squares; sharing must hold for every direction, rotation and order of insertion.",[B,N],"canonical direction before lookup in a hash map of point lists"),
P("C03","All links inside a topology are exact after any sequence of operations",
 "After any sequence of building, normalizing, clipping and simplifying, every ring names the region it belongs to, every directed edge names an edge of this same topology, and every edge names exactly the rings that use it (once per use, at most two, none otherwise). No link ever points outside the topology it belongs to or to freed memory.",
 ["histories","inputs"],"all topologies reachable by building, normalizing, clipping and simplifying in any order, and all memory-allocator behaviours (including ones that move blocks when they shrink)",
 "Links are raw pointers; tests look at a few of them, on one allocator, after one operation.",[B,T,CT,N,SM],"pointers are taken after vectors stop moving; edge.rings filled in a second pass"),
P("C04","Normalizing keeps every region's area and data",
 "Normalizing a valid topology returns the same regions, in order and with the same data, and each region covers exactly the same area: its outline, as a set of directed straight segments, is the original outline without the segments where the region borders only itself. The topology being normalized is not changed.",
 ["inputs"],"all valid topologies: closed rings of non-zero area whose interiors do not overlap, each straight segment belonging to one edge, and no region touching itself at a single point where it has several borders (islands, holes, donuts, nested and adjacent rings included)",
 "Tests normalize a dozen hand-made topologies of one or two rings.",[N,B],"redundant-edge removal and ring re-joining keyed by start point; partition into outer and inner by winding"),
P("C05","A normalized topology obeys the documented normalization rules",
 "In a normalized topology no two rings of a region share an edge, consecutive edges of a ring separate different pairs of regions, and a ring bordering the same neighbour all round is a single edge. Outer rings run clockwise and inner rings counter-clockwise; every ring starts at its leftmost, then topmost, node (a single-edge ring at its leftmost, then topmost, point) and rings are ordered by their starting points. A border between two regions is one edge used by both.",
 ["inputs"],"all valid topologies, as for C04",
 "The documented rules quantify over every topology; tests compare a dozen fixed outputs.",[N],"join_related_edges, rotate_edges, wind_edges, join_adjacent_rings and the final sort"),
P("C06","Equivalent topologies normalize to the same result",
 "Two valid topologies that describe the same regions normalize to identical topologies, whatever the order, starting point and direction of their rings, however their borders are cut into edges, whether rings are given as points or as edges, and whether a region is given in one piece or as adjacent pieces. In particular, normalizing a normalized topology changes nothing.",
 ["inputs","histories"],"all pairs of representations of the same valid region map, and repeated normalization",
 "It relates two runs of the code over all representations; no test compares two representations.",[N,B],"canonical form"),
P("C07","Clipping cuts each path exactly at the mask",
 "Clipping a path against a mask returns, in order, exactly the parts of its segments that lie within the mask's half-plane, leaving out parts that merely run along the mask's line or touch it without going inside: kept points are unchanged, no returned point lies outside the mask, and each cut point lies on the mask's line where the segment crosses it, rounded to an integer towards the segment's first point. This holds for all four mask directions and all u32 coordinates, without overflow.",
 ["inputs"],"all paths, all four mask directions and all u32 positions (on, between and beyond vertices), at the path level and for every edge of every clipped topology",
 "Tests cover about ten short paths with small coordinates.",[CE,CY,CT],"Sutherland-Hodgman over mask.test and mask.intersect"),
P("C08","Clipping keeps rings closed and the topology shared",
 "In a clipped topology every ring consists of the clipped paths of the original ring in order, joined where they were cut apart by straight edges along the mask's line, so that it is still closed and keeps its winding direction. Clipped paths shared by two rings are still one shared edge, and two rings with the same joining edge share it; regions, outer and inner rings keep their order and data, and a ring disappears exactly if its clipped area is zero, a region exactly if none of its outer rings remain. The topology being clipped is not changed.",
 ["inputs","histories"],"all topologies with consistent links and closed rings, all masks, and repeated clips, as long as no joining edge would bound more than two rings",
 "Tests clip five hand-made topologies.",[CT],"clip_ring walks directed edges, inserts gap edges, sums area"),
P("C09","Repeated clips compose into a rectangle",
 "Clipping twice by the same mask gives the same geometry as clipping once, and a mask with nothing outside it changes no ring beyond dropping points along the mask's own line. After clipping by up to four masks in any order every point lies in their common rectangle, and the vertices strictly inside it are exactly the original vertices there, ring by ring, apart from rings that clipping has reduced to zero area.",
 ["histories","inputs"],"all sequences of masks applied to all valid topologies",
 "No test applies more than one clip.",[CT,CE,CY],"composition of clip_topology"),
P("C10","Simplifying never changes topology",
 "Simplifying a topology at any threshold leaves regions, data, rings, edge directions and all links as they were; each edge keeps its first and last points and becomes a subsequence of its original points, and a closed edge of four or more points keeps at least four points. A larger threshold never keeps more points than a smaller one, and it never fails.",
 ["inputs","histories"],"all topologies reachable by building, normalizing and clipping, with edges of two or more points, and all thresholds 0..u64::MAX",
 "Tests simplify single edges of at most ten points.",[SM,SE],"per-edge simplification in place; ring fallback to a triangle"),
P("C11","Simplifying removes points in Visvalingam-Whyatt order",
 "The points removed from an edge are exactly those that Visvalingam-Whyatt elimination removes: repeatedly the point whose triangle with its current neighbours has the smallest area (ties in any order), a point's importance never being below that of a point removed before it, until the smallest importance, as twice the triangle's area, exceeds the threshold. Only a closed edge that would be left with fewer than four points keeps, besides its end point, its two most important points.",
 ["inputs"],"all edges of two or more points (closed edges: four or more), all u32 coordinates and thresholds",
 "The result depends on a heap and linked list whose bugs only show for particular orders of areas; tests use fewer than ten paths.",[SE],"PointHeap: heapify, pop, recalculate_point_weight, visvalingam_whyatt"),
P("C12","Area and winding order are exact",
 "For every ring, given as points or as edges, the reported doubled area is the exact absolute value of the shoelace sum and the winding order is clockwise exactly if that sum is not negative (with y growing downwards). This holds for all u32 coordinates, without overflow, does not depend on where a ring starts or how it is cut into edges, and reversing a ring of non-zero area flips its winding and keeps its area.",
 ["inputs"],"all point sequences over u32 x u32 (including the extreme corners)",
 "There is no direct test; the arithmetic only fails at large coordinates.",[G],"signed_area2 and its callers"),
P("C13","Polygon files are read faithfully",
 "Reading a valid polygon .shp file yields its bounding box and then every record once, in file order, with its record number and exactly its rings: the same number, order, and number of points, and bit-for-bit the same coordinates. This does not depend on how the underlying stream splits its reads.",
 ["inputs","schedules"],"all valid polygon shapefiles (any number of records, parts and points) and all ways a stream can split or interrupt reads",
 "Tests read three fixed files through one kind of stream.",[SH],"read_shp_header, read_polygon_record, parse_polygon_record"),
P("C14","Attribute files are read faithfully",
 "Reading a .dbf file yields its field names in order and each record's exact bytes, as many as the header announces and in file order; fields can be looked up by name (the first of that name). Reading a field as text returns the field's own bytes: decoded in the chosen encoding without trailing spaces for character fields, the number without leading spaces for numeric fields, the little-endian unsigned 32-bit value for long fields, and an error for anything else or anything malformed.",
 ["inputs","configurations"],"all valid .dbf files (fields, types, widths, values), the encodings ASCII, UTF-8 and Windows-1252, and all ways a stream can split reads",
 "Tests read a few fixed values.",[DB,RM],"read_dbf_fields accumulates offsets; DbfField::read_string"),
P("C15","Shapes and attributes are paired record by record",
 "Reading a shapefile yields its i-th shape with its i-th attribute record, in order, until both files end. If one file has more records than the other, every extra record yields one error, never a mispaired, repeated or silently dropped record. A file opened by name is read together with the .dbf file of the same name, in the encoding the caller chose, and fails to open if either is missing.",
 ["inputs","fault_sequences"],"all pairs of .shp and .dbf files, with equal or different numbers of records and with damaged records in either",
 "Tests read one well-formed pair.",[SF,RM],"ShapefileReader::next zips the two iterators"),
P("C16","Damaged files give errors, never panics, hangs or wrong data",
 "Reading any sequence of bytes as a .shp, a .dbf or a pair ends after finitely many steps without a panic, and without allocating much more memory than the files' size. A file whose header is invalid or incomplete is rejected on opening; each damaged record yields an error and never invented data, and undamaged records whose position is still known are still returned unchanged. Data that runs out, or a stream that fails, before the announced end yields one error, and after that or after a regular end the reader yields no further records.",
 ["inputs","fault_sequences"],"all byte sequences: truncations at every byte, corrupted bytes and length fields in every position, streams failing at any point",
 "Tests read well-formed files and two malformed headers.",[SH,DB,SF],"length checks in parse_polygon_record; error handling in the three next() functions"),
P("C17","File coordinates map to integers linearly and consistently",
 "Converting a shapefile to integer geometry maps its bounding box onto the full u32 square, linearly and with the y axis flipped, rounding down (to within floating-point error of 2^-16): the box's corners map to exactly 0 and 2^32-1, the order of coordinates is preserved, points outside the box go to its border, and equal coordinates map to equal ones, so shared borders stay shared. Every record becomes one region with its attribute record and all its rings and points in order, clockwise rings (as displayed; a ring without area counts as clockwise) outer and counter-clockwise rings inner; errors are passed on in their place.",
 ["inputs"],"all valid shapefiles whose bounding box has positive width and height, all finite coordinates",
 "There is no test of this conversion.",[SG,SH],"ShapefileQuantizer::quantize and the partition by winding order"),
P("C18","A ring's two representations agree",
 "A ring given as points and the same ring given as edges report the same points, each joint once, and edges that join up to exactly its points: each segment of a point ring becomes one edge, edges are returned unchanged, and converting points to edges and back returns the original points. Building, area and winding do not depend on which representation is used.",
 ["inputs"],"all rings of three or more points, cut into edges in every way",
 "The unit tests for this are never compiled.",[G,B],"Ring::points and Ring::edges"),
P("C19","Printed forms list everything, in order",
 "The printed form of a point, path, ring, region, polygon ring, attribute record or shapefile record lists all of its coordinates or field values, each once and in order, in the library's bracketed notation; an attribute record that cannot be decoded prints as invalid rather than failing.",
 ["inputs"],"all points, paths, rings, regions and records",
 "No test prints anything.",[G,SH,DB,SF],"the Display implementations"),
P("C20","Errors name the failing file and the reason",
 "Every error a reader returns, on opening or later, says what went wrong: an I/O error if data ran out, the stream failed or the file is missing, carrying the kind of that failure; a parse error if the contents (header, record or field value) are invalid; and, reading a pair, a join error exactly if one file has a further record and the other has ended. Reading a pair, any other error is marked with the file it comes from and is that file's own error, the polygon file's if both fail. I/O errors print as the underlying error prints, others as 'Parse error: ' and their description; an error's description is that of the innermost error, and it has a cause unless it is itself the innermost.",
 ["inputs","fault_sequences"],"all readers, all damaged, truncated or missing files and failing streams, and all pairs of files of different lengths",
 "Tests look at the outcome of two malformed files, and only whether it is an error.",[SH,DB,SF],"the error types and where read_exact errors, parse errors and exhausted iterators are turned into them"),
P("C21","The same input always gives the same result",
 "Building, normalizing, clipping and simplifying are functions of what they are given: repeated on the same regions, topology, mask and threshold, in the same or another process state, they return the same regions, rings and edges, in the same order, stored in the same direction and with the same links, whatever the type of the data attached to regions.",
 ["inputs","histories","configurations"],"all inputs and sequences of operations, all hash seeds and types of data",
 "A hash map's order differs from run to run; a test that passes once need not pass again.",[B,CT,N,SM],"edge ids are handed out in order of first use, and hash maps are put back in that order"),
P("C22","Readers say how far they are",
 "A polygon reader's count of bytes read is 100 after opening; every record stepped over, returned or rejected for its contents, adds its header and contents. An attribute reader's count of records is 0 after opening and every record returned adds one. After an error behind which no further record can be found (the stream failed or ended), the count is what the file's header announces. next() returns None exactly if the count has reached what the header announces, and then changes nothing.",
 ["inputs","fault_sequences"],"all polygon and attribute files, whole, damaged or cut short, and all numbers of steps",
 "Tests never look at the counts.",[SH,DB],"n_bytes_already_read and n_records_already_iterated"),
P("C23","Readers take no more from a stream than they return",
 "Opening a reader takes exactly the file's header from its stream (for an attribute file, as many bytes as the header says it has), and each step exactly the bytes of the record it returns or rejects for its contents; once the end is reached, steps take nothing. A record can thus be had as soon as its bytes are there, and what follows a file in a stream is left for others. This holds for each stream of a pair, and until a stream fails or runs out.",
 ["inputs","fault_sequences"],"all files, however their streams split reads, and all numbers of steps",
 "Tests read whole files from memory or disk and never look at the stream.",[SH,DB,SF],"read_exact and take on the caller's stream"),
P("C24","Every value is owned by one topology and freed with it",
 "Each region of a topology owns one data value of its own: building takes over the values it is given (and ends those of regions it leaves out), normalizing and clipping copy them and leave the source's alone, simplifying takes them over from the topology it is given. After any sequence of building (or abandoning a builder), normalizing, clipping, simplifying and dropping topologies in any order, the data values alive are exactly those of the regions of the topologies that still exist, none is ended twice or used after its end, the topologies that still exist are unchanged, and once all are dropped no memory is left allocated.",
 ["histories","inputs"],"all histories of building, abandoning, normalizing, clipping, simplifying and dropping, in which no operation panics",
 "Tests never drop a topology while using another, use plain data, and do not look at what is freed.",[B,T,CT,N,SM],"Box and Vec ownership around raw pointers; data moved by into_topology and simplify, cloned by clip and normalize"),
]
with open('/verif/properties.jsonl','w') as f:
    for p in ps: f.write(json.dumps(p)+"\n")
