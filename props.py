"""The properties, in the order of properties.jsonl."""
LEVEL_NOTE = ("generated cases against an explicit oracle; seeds and case counts fixed per tier, every failure is replayed three "
              "times in fresh processes and shrunk before it is reported")
NOTES = ("Every check builds the library from /repo's working tree (all of src except the parts that need VTK or OpenCASCADE), "
         "links it with the engine and one harness, and generates cases from VERIF_SEED. Ranks of parallel cases are fibers of one "
         "process on an in-process MPI whose schedule is generated.")
NOT_APPLICABLE = []
SCH = ["src/t8_schemes/t8_scheme.hxx", "src/t8_schemes/t8_default", "src/t8_schemes/t8_standalone"]
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, tech, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, tech=tech, **kw))


P("S01", "Refinement tiles an element and is inverted by coarsening",
  "For every element class, scheme implementation and element below the maximum level, the children reported by refinement are pairwise "
  "disjoint, together fill exactly the parent cell and have the number, levels and child ids the queries announce. Parent, ancestor, "
  "sibling, common ancestor and child-by-id queries agree with that hierarchy, and a set of elements is recognised as a family exactly "
  "if it consists of all children of one element in order.",
  ["inputs"], "all classes (vertex to pyramid), both scheme implementations, all elements of all levels up to the maximum, all subsets "
  "of elements offered to the family test",
  "The tests recurse exhaustively only to small levels (2 to 4) or sample one random element; the bit arithmetic of simplices and "
  "pyramids depends on the whole path of types up to level 21 to 30, and near-families differ from families in a single member.",
  SCH, [("children, parent, siblings, families", "src/t8_schemes/t8_default/t8_default_*/t8_d*_bits.c, t8_default_pyramid, t8_standalone_implementation.hxx")],
  "property-based testing: random refinement paths against an integer-geometry model of the refinement")
P("S02", "Linear ids number the leaves of every level along the curve",
  "At every level the elements of a tree carry the linear ids 0 to N-1 in curve order, where N is the reported leaf count, and building an "
  "element from its id inverts computing its id. Ids, comparison, successor, first and last descendant and descendant counts are mutually "
  "consistent with the order given by the children, with ancestors ordered before their descendants' successors.",
  ["inputs"], "all classes and scheme implementations, pairs of elements of arbitrary levels, all levels for which ids are defined",
  "Tests enumerate complete uniform levels up to 3 to 5; ids at deep levels use 64-bit arithmetic and type tables that are only reached "
  "by deep, unusual paths.",
  SCH, [("linear id, successor, compare", "t8_d*_bits.c, t8_dpyramid_bits.c, t8_default_*.cxx, t8_standalone_implementation.hxx")],
  "property-based testing: ids compared with counts of preceding leaves of the refinement model")
P("S03", "Same-level face neighbours inside a tree are mutual and geometrically right",
  "For every element and face, the same-level neighbour within the tree exists exactly if the face is not on the tree boundary, and it is "
  "the unique same-level cell on the other side that shares precisely this face. Taking the neighbour back across the reported face "
  "returns the original element and face.",
  ["inputs"], "all classes and scheme implementations, all elements and faces of all levels",
  "Tests check all elements of small levels; neighbour construction carries across bits of all levels and depends on element types.",
  SCH, [("face neighbour inside", "element_get_face_neighbor_inside of every scheme")],
  "property-based testing: random elements against exact cell geometry")
P("S04", "Faces of elements: hierarchy, tree boundary and transfer across glued trees",
  "The children of an element at a face, the face of a child, the face shared with a tree face and the face's first and last descendants "
  "are those whose cells touch that face. Restricting a boundary element to the tree face and extruding it back returns the element, and "
  "for any gluing of two tree faces with any orientation the transformed face element covers the same points of the glued face.",
  ["inputs", "configurations"], "all classes, schemes, elements, faces, and all admissible pairs of tree faces with all orientations",
  "Tests cover few orientations and small levels; a wrong corner permutation shows only for certain type, face and orientation triples.",
  SCH + ["src/t8_eclass/t8_eclass.c"],
  [("face children, boundary face, extrude, transform", "element_get_children_at_face, element_construct_boundary_face, element_extrude_face, element_transform_face")],
  "property-based testing: random element, face and gluing against exact point maps of the glued faces")
P("S05", "Elements survive copying, comparison, packing and coordinate queries",
  "Copying an element or packing and unpacking it through a message buffer at any position yields an equal element, and equality holds only "
  "for the same cell. The buffer is advanced by exactly the bytes used, within the announced bound, and reference coordinates of vertices "
  "and interior points lie at the same affine position in the element's cell.",
  ["inputs"], "sequences of elements of all classes and schemes, arbitrary chunking and padding of the buffer, arbitrary points",
  "Tests pack uniform leaves of small levels with fixed layout.",
  SCH, [("MPI pack/unpack, copy, equal, reference coordinates", "element_MPI_Pack, element_MPI_Unpack, element_copy, element_is_equal, element_get_reference_coords")],
  "property-based testing: pack/unpack round trips and affine interpolation of vertex coordinates")

FOR = ["src/t8_forest/t8_forest.cxx", "src/t8_forest/t8_forest_adapt.cxx", "src/t8_forest/t8_forest_partition.cxx",
       "src/t8_forest/t8_forest_balance.cxx"]
FWHY = ("Tests run a few fixed meshes, mostly on one process; here meshes, gluings, rank counts, schedules and operation histories are "
        "generated.")
P("F01", "Every committed forest is an ordered, disjoint, complete cover of its mesh",
  "After any history of adapting, partitioning, balancing and copying on any number of processes, the leaves of all processes in rank order "
  "are strictly ordered along the curve, do not overlap and fill every tree, except for elements the user removed. Local and global counts, "
  "tree ids, element offsets and per-tree queries of every process agree with these leaves.",
  ["histories", "configurations", "schedules"], "coarse meshes of all classes, replicated and partitioned, with arbitrary gluing, uniform start "
  "levels, operation histories, process counts, node layouts and message schedules", FWHY, FOR,
  [("commit and the operations it combines", "t8_forest_commit, t8_forest_adapt, t8_forest_partition, t8_forest_balance"),
   ("counts and offsets", "t8_forest_partition_create_offsets, t8_forest_compute_elements_offset")],
  "stateful property-based testing against an explicit leaf-list model on an in-process MPI with generated schedules")
P("F02", "Adaptation does exactly what the callback answers",
  "One adaptation replaces every element by its children, its whole family by the parent, nothing, or itself, exactly as the callback "
  "answered for it, and repeats this to a fixed point if recursive. Without recursion the callback sees every element of the input once, together "
  "with its complete family if the siblings are consecutive leaves of the process, and no element is ever refined beyond the maximum level. "
  "The callback finds the user data and user function that were set on the new forest, also if the same commit partitions or balances it.",
  ["inputs", "histories"], "answers that depend arbitrarily on the element, recursive or not, elements of all levels up to the maximum, "
  "removals, any distribution of families over processes", FWHY, ["src/t8_forest/t8_forest_adapt.cxx"],
  [("adapt loop, recursive refine and coarsen", "t8_forest_adapt, t8_forest_adapt_refine_recursive, t8_forest_adapt_coarsen_recursive"),
   ("family detection", "t8_forest_is_family_callback, t8_forest_is_incomplete_family")],
  "stateful property-based testing against a recursive adaptation model")
P("F03", "Partitioning moves process boundaries and nothing else",
  "Partitioning keeps the global sequence of elements and places the process boundaries where they belong: evenly, by accumulated weight, "
  "at user offsets, or on one process. With partition for coarsening no complete family is split, while boundaries that split no family "
  "stay where they are otherwise placed.",
  ["inputs", "configurations", "schedules"], "element distributions including empty processes, weights including zero, equal and real "
  "ones, custom offsets, 1 to 8 processes, message schedules", FWHY, ["src/t8_forest/t8_forest_partition.cxx",
  "src/t8_forest/t8_forest_partition_for_coarsening.cxx"],
  [("new offsets", "t8_forest_partition_compute_new_offset, t8_forest_pfc_correction_offsets"),
   ("sending and receiving elements", "t8_forest_partition_given")],
  "stateful property-based testing: global leaf sequence preserved, offsets recomputed by an independent model")
P("F04", "Balance yields the smallest 2:1 balanced refinement",
  "Balancing a complete forest refines elements only as far as needed: the result is the smallest refinement of the input in which levels of "
  "face neighbouring leaves differ by at most one, across tree boundaries and process boundaries. The query whether a forest is balanced answers true exactly "
  "for forests in which this holds for the local elements.",
  ["histories", "configurations", "schedules"], "graded forests of all classes up to the maximum level, gluings, process counts, with and without "
  "repartitioning", FWHY, ["src/t8_forest/t8_forest_balance.cxx", "src/t8_forest/t8_forest_ghost.cxx"],
  [("ripple refinement", "t8_forest_balance, t8_forest_balance_adapt"), ("query", "t8_forest_is_balanced")],
  "stateful property-based testing against a fixed-point model of 2:1 balance on exact face adjacency")
P("F05", "The ghost layer consists of exactly the remote face neighbours",
  "On every process the ghost layer holds exactly the leaves of other processes that share a face with a local leaf, grouped and ordered by "
  "owner and tree. Remote ranks, first ghost per rank and per tree, ghost tree ids, classes and counts describe this layer consistently.",
  ["histories", "configurations", "schedules"], "complete forests after any history, all ghost algorithms (version 1 on balanced forests), "
  "gluings, process counts including empty processes, message schedules", FWHY, ["src/t8_forest/t8_forest_ghost.cxx"],
  [("remote search and ghost communication", "t8_forest_ghost_create_ext, t8_forest_ghost_fill_remote_v3, t8_forest_ghost_communicate")],
  "stateful property-based testing against exact face adjacency of the global leaf list")
P("F06", "Element data reaches the right element across ghosts and partitions",
  "Exchanging ghost data puts into the slot of every ghost the bytes its owner stored for that element, for any data size, and leaves the local "
  "entries unchanged. Moving data from a forest to its repartitioned successor delivers to every element the bytes stored for it before.",
  ["inputs", "histories", "schedules"], "data sizes, element distributions before and after, repeated exchanges, message schedules", FWHY,
  ["src/t8_forest/t8_forest_ghost.cxx", "src/t8_forest/t8_forest_partition.cxx"],
  [("ghost exchange", "t8_forest_ghost_exchange_begin, t8_forest_ghost_exchange_end"), ("partition data", "t8_forest_partition_data")],
  "stateful property-based testing with element-dependent payloads")
P("F07", "Leaf face neighbours are complete, mutual and geometrically right",
  "For every face of every local leaf the reported neighbours are exactly the leaves (local or ghost) on the other side, with their dual "
  "faces, indices, tree and orientation, and none at the domain boundary. Same-level and half-size neighbours across tree faces cover "
  "the same face points.",
  ["histories", "configurations"], "complete forests after any history, unbalanced ones included, all gluings and orientations, any process count", FWHY,
  ["src/t8_forest/t8_forest.cxx"],
  [("leaf face neighbours", "t8_forest_leaf_face_neighbors_ext, t8_forest_element_face_neighbor, t8_forest_element_half_face_neighbors")],
  "stateful property-based testing against exact face geometry of all leaves")
P("F08", "Searches and face iterations visit exactly the branches they are told to",
  "A search enters every local tree at an element containing all its local leaves and then visits exactly those children with local leaves below elements whose callback "
  "agreed and, with queries, at which some query is still active, passing the element, whether it is a local leaf, its leaves and their index. A query is checked for an element "
  "exactly if it matched all visited ancestors in the tree, and iterating a face of a local or ghost element visits exactly the descendants with leaves that touch the face, with their face.",
  ["histories", "inputs"], "forests after any history including removed elements, answers depending arbitrarily on element and query, all search interfaces, process counts", FWHY,
  ["src/t8_forest/t8_forest_iterate.cxx", "src/t8_forest/t8_forest_search/t8_forest_search.cxx", "src/t8_forest/t8_forest_search/t8_forest_search.hxx"],
  [("search recursion", "t8_forest_search, t8_search_base::search_recursion, t8_search_with_queries, t8_search_with_batched_queries"),
   ("splitting of leaves, faces", "t8_forest_split_array, t8_forest_iterate_faces")],
  "stateful property-based testing: recorded visits against a reference traversal of the leaf list")
P("F09", "Comparing a forest with its adapted successor reports every change once",
  "Comparing a forest with the one obtained from it by one adaptation calls the user once, in order, for every untouched element, refined element, coarsened family and removed element, "
  "with the tree, the kind of change, the numbers of old and new elements and the indices of the first of them within the tree.",
  ["histories", "inputs"], "non-recursive adaptations with arbitrary answers, incomplete families and removals included, on any process count", FWHY,
  ["src/t8_forest/t8_forest_iterate.cxx"], [("comparison", "t8_forest_iterate_replace")],
  "stateful property-based testing: recorded calls against a comparison of the two leaf lists")
P("F11", "Forests share resources safely in any order of release",
  "A forest stays intact and equal to itself while other forests derived from it are committed, used and released, in any order and for any "
  "combination of taking over or retaining references. When the last reference is gone all memory is returned, and copies equal their source.",
  ["histories"], "orders of commit, ref, unref and destroy over derived forests, with and without ghosts", FWHY, ["src/t8_forest/t8_forest.cxx",
  "src/t8_refcount.c", "src/t8_cmesh/t8_cmesh.cxx"],
  [("reference counting", "t8_forest_ref, t8_forest_unref, t8_forest_reset, t8_forest_copy_trees")],
  "stateful property-based testing: random reference histories, allocation balance and re-validation of retained forests")
P("F12", "Owner lookups name the process that holds the element",
  "For any element, leaf or not, the owner lookup returns the process holding its first leaf (or the leaf containing it), independent of bounds "
  "and guess given. The owners at a face are exactly the processes holding leaves of the element that touch the face, and the reported bounds contain them.",
  ["inputs", "configurations"], "elements of any level, any distribution of leaves including empty processes and custom offsets", FWHY,
  ["src/t8_forest/t8_forest.cxx", "src/t8_forest/t8_forest_private.h"],
  [("owner search", "t8_forest_element_find_owner_ext, t8_forest_element_owners_at_face, t8_forest_element_owners_bounds")],
  "property-based testing against the explicit owner map of the leaf list")

GWHY = ("Tests evaluate a few fixed trees at fixed points; wrong indices, caches and permutations depend on the class, the batch, the "
        "placement of the tree in space and the order of evaluations.")
P("G01", "Tree geometries evaluate the map they define, for every tree, point and batch",
  "Evaluating the linear, axis-aligned, Lagrange, analytic or zero geometry of a tree at any list of reference points gives for each point "
  "the value of that geometry's map for the data of that tree, whatever was evaluated before, in the mesh or in copies sharing its geometries. "
  "Jacobians, bounding boxes, negative-volume answers and the interpolation, face, intersection and point-inside helpers agree with these maps.",
  ["inputs", "histories"], "trees of all classes in any position, several geometries per mesh, batches of any size including the apex and "
  "degenerate placements, order of evaluations over several trees and derived meshes", GWHY,
  ["src/t8_geometry/t8_geometry_helpers.c", "src/t8_geometry/t8_geometry_handler.cxx", "src/t8_geometry/t8_geometry_implementations"],
  [("interpolation", "t8_geom_compute_linear_geometry, t8_geom_linear_interpolation, t8_geometry_lagrange::t8_geom_map"),
   ("active tree and geometry", "t8_geometry_handler::update_tree, t8_geom_load_tree_data")],
  "stateful property-based testing against independent shape functions in double precision")
P("C05", "Example mesh generators build conforming meshes of the described shape",
  "For all parameters, the generated example meshes (hypercubes, padded boxes, bricks, rows, cakes, hybrids) have the described trees filling the "
  "described domain with positive volume, and every face gluing, orientation included, identifies points with equal coordinates up to the "
  "periods, with no coinciding faces left unglued. Broadcast, partitioned and per-process variants describe the same mesh on every process.",
  ["inputs", "configurations"], "classes, numbers of trees per direction, periodicity, boundary polytopes, offsets, process counts",
  "Tests only check that a few examples commit; wrong ids, orientations or coordinates appear for certain sizes, classes and periods only.",
  ["src/t8_cmesh/t8_cmesh_examples.cxx"],
  [("padded hypercube", "t8_cmesh_new_hypercube_pad_ext, t8_cmesh_set_vertices_2D, t8_cmesh_set_vertices_3D"),
   ("hypercube and bricks", "t8_cmesh_new_hypercube, t8_cmesh_new_brick_3d_ext, t8_cmesh_new_disjoint_bricks")],
  "property-based testing: random generator parameters, gluing checked against coordinates, metamorphic comparison of distributed variants")
P("G02", "Curved example geometries map onto the exact disk, sphere, shell or ball",
  "The squared disk, triangulated, tessellated and cubed spheres and shells place every tree point on the described surface or between the described radii, cover "
  "it once with positive orientation, and are continuous across all glued faces. The value at a point does not depend on the other points evaluated with it.",
  ["inputs"], "radii, thicknesses, numbers of layers and trees, all reference points", GWHY,
  ["src/t8_geometry/t8_geometry_implementations/t8_geometry_examples.cxx", "src/t8_cmesh/t8_cmesh_examples.cxx"],
  [("curved maps", "t8_geometry_quadrangulated_disk, t8_geometry_cubed_spherical_shell, t8_geometry_cubed_sphere"),
   ("meshes", "t8_cmesh_new_cubed_spherical_shell, t8_cmesh_new_prismed_spherical_shell_icosahedron")],
  "property-based testing against radii, covered measure by quadrature and face-wise continuity")
P("G03", "Element coordinates, sizes, faces and inside tests follow the tree's map",
  "For every element of every refinement level, corner coordinates, mapped reference points (stretched or not, any number of them) and centroids are the "
  "images under the map of its tree, on any process. In affine trees volumes, face areas and face centres are exact, face normals are unit, orthogonal to the "
  "face and outward, and point-inside answers are right for points away from the element boundary; in axis-aligned trees "
  "a point is inside exactly if it is within the given tolerance of the element's box in every direction.",
  ["inputs", "configurations"], "elements of all classes, shapes and levels in trees placed anywhere in space, batches of points, process counts", GWHY,
  ["src/t8_forest/t8_forest.cxx", "src/t8_element/t8_element.cxx", "src/t8_geometry/t8_geometry_implementations/t8_geometry_linear.cxx"],
  [("element geometry", "t8_forest_element_coordinate, t8_forest_element_from_ref_coords_ext, t8_forest_element_volume, t8_forest_element_face_normal"),
   ("inside test", "t8_forest_element_points_inside, t8_geometry_linear::t8_geom_point_batch_inside_element")],
  "property-based testing against affine geometry computed from exact reference cells")

CWHY = ("Tests commit a few example meshes and compare counts; which offsets, ghosts and tables are wrong depends on the joins, the "
        "attributes present or missing on single trees, the partition (shared trees, empty processes) and the number of processes.")
P("C01", "A committed coarse mesh is exactly the mesh that was described",
  "After commit every tree has the class, vertices, attributes (the last value set per key), geometry and face connections with orientation that were "
  "set, on every process and for replicated meshes, meshes partitioned by range or offsets, and meshes broadcast from any root before commit. "
  "Local trees, ghosts (exactly the non-local neighbour trees), global and local ids, counts, partition table and equality test agree with it.",
  ["inputs", "configurations", "schedules"], "tree classes, face joins including self and multiple joins, attributes of any key and size in any order, "
  "partitions with shared trees and empty processes, process counts, broadcast roots", CWHY,
  ["src/t8_cmesh/t8_cmesh.cxx", "src/t8_cmesh/t8_cmesh_internal"],
  [("commit", "t8_cmesh_commit, t8_cmesh_commit_partitioned_new, t8_cmesh_commit_replicated_new"),
   ("tree storage", "t8_cmesh_trees_*, t8_cmesh_stash_*"), ("broadcast", "t8_cmesh_bcast, t8_stash_bcast")],
  "property-based testing: random mesh descriptions, all queries compared with the description")
P("C02", "Copying and repartitioning a coarse mesh preserve it",
  "Deriving a coarse mesh by copy or by any sequence of repartitions (uniform at a level, given offsets, given ranges) keeps all trees, attributes, "
  "connections and geometries, gives every process the requested trees and exactly the neighbouring ghosts, and leaves the source usable. All "
  "references and memory are returned at the end.",
  ["histories", "configurations", "schedules"], "sequences of derivations of random meshes, kept or released sources, shared trees, empty processes, message schedules", CWHY,
  ["src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx", "src/t8_cmesh/t8_cmesh_internal/t8_cmesh_copy.cxx", "src/t8_cmesh/t8_cmesh_internal/t8_cmesh_offset.c"],
  [("repartition", "t8_cmesh_partition, t8_cmesh_partition_given, t8_cmesh_partition_sendloop"), ("copy", "t8_cmesh_copy")],
  "stateful property-based testing: random derivation histories against the mesh description")
P("C03", "Uniform bounds split the leaves of the coarse mesh evenly between processes",
  "For any coarse mesh, level and process count the uniform bounds give process p of P the elements from floor(N p / P) to floor(N (p+1) / P), as first "
  "and last tree and element indices in them, together with the right shared flag. The answer is the same for replicated and arbitrarily "
  "partitioned coarse meshes, and consistent for processes without elements.",
  ["inputs", "configurations"], "mixed classes, levels up to counts near 2^60, process counts, partitions with shared trees and empty processes", CWHY,
  ["src/t8_cmesh/t8_cmesh.cxx", "src/t8_cmesh/t8_cmesh.hxx"],
  [("bounds", "t8_cmesh_uniform_bounds_for_irregular_refinement, t8_cmesh_uniform_bounds_equal_element_count, t8_cmesh_get_first_element_of_process")],
  "property-based testing against exact 128-bit arithmetic")

P("C04", "Joining by vertices connects exactly the coinciding faces",
  "From the classes and vertices of all trees, given as arrays or taken from the mesh under construction, exactly the pairs of faces with the same corner points, up to "
  "round-off, are connected, with the right dual faces and orientations, whatever the numbering of the corners, the order of the trees and the placement in space. The returned "
  "table holds each connection from both sides if requested and otherwise from at least one, and the committed mesh has these connections.",
  ["inputs"], "conforming and partly conforming complexes of all classes, dimensions 1 to 3 embedded anywhere, right-handed numberings, order of trees, round-off in single coordinates",
  "Tests rebuild the joins of a few examples; lost joins depend on the direction in space, on bin boundaries of the hashed coordinates and on the corner numbering.",
  ["src/t8_cmesh/t8_cmesh_helpers.cxx"],
  [("joins", "t8_cmesh_set_join_by_vertices, t8_cmesh_set_join_by_stash")],
  "property-based testing: random cell complexes with known nodes, joins compared with equal node sets")
P("C06", "Reading a gmsh file yields the mesh of the file, or fails cleanly everywhere",
  "Reading an ASCII gmsh file of format 4 gives the elements of the requested dimension as trees in file order with their classes, vertices, node data, distinct global vertex ids "
  "and connections of all faces with equal nodes, replicated on all processes or all on the master. A missing, truncated, binary or unsupported file, or one with undefined or repeated nodes, "
  "unsupported or no elements, yields no mesh on any process, with all memory returned.",
  ["inputs", "configurations", "crash_points"], "node tags with gaps in any order, blocks, parametric nodes, comments and blank lines, elements of lower dimensions in between, truncation at any byte, process counts",
  "Tests read four small files; node tables, parsing and error paths depend on gaps in the tags, the layout of blocks and the place of the defect.",
  ["src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx"],
  [("parsing", "t8_msh_file_4_read_nodes, t8_cmesh_msh_file_4_read_eles"), ("connections", "t8_cmesh_msh_file_find_neighbors"), ("entry", "t8_cmesh_from_msh_file")],
  "property-based testing: files written from random cell complexes read back and compared; faults injected into the files")
P("C07", "Partition tables of trees answer who has and who sends which tree",
  "For every partition table of the trees over the processes, with empty processes and trees shared by any number of processes, the queries for the first and last tree, number of trees and "
  "the owners (any, first, last, next, previous, all) of a tree agree with the table, and for two tables a process keeps the trees it has and gets every other tree from the first owner, as the send queries say. "
  "Made tables (all trees on one process, random, a percentage of the unshared trees to the next process) are valid, equal on all processes and as described.",
  ["inputs", "configurations"], "all consistent tables of any size, pairs of tables, trees up to 2^40",
  "Tests use tables of evenly split meshes on one process; chains of sharing processes with empty ones in between need particular tables.",
  ["src/t8_cmesh/t8_cmesh_internal/t8_cmesh_offset.c", "src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx"],
  [("owners", "t8_offset_any_owner_of_tree, t8_offset_first_owner_of_tree, t8_offset_all_owners_of_tree"), ("sends", "t8_offset_sendsto, t8_offset_sendstree, t8_offset_nosend, t8_offset_range_send"),
   ("made tables", "t8_cmesh_offset_concentrate, t8_cmesh_offset_random, t8_cmesh_offset_percent")],
  "property-based testing: random pairs of tables, all queries compared with the ranges of the table")
P("C08", "Global vertex ids connect each vertex with exactly the trees that have it",
  "After commit of a replicated mesh with global vertex ids, every tree reports the ids that were set for its vertices, the number of global vertices is the number of distinct ids, and the list of "
  "an id contains exactly the trees and local vertices that carry it. Lists filled by hand in any order are sorted by commit and compare equal exactly if they hold the same entries.",
  ["inputs"], "numberings with gaps, identified vertices, order of setting, all classes",
  "Tests check a few fixed meshes with consecutive ids.",
  ["src/t8_cmesh/t8_cmesh_vertex_connectivity"],
  [("lists", "t8_cmesh_vertex_conn_vertex_to_tree::build_from_ttv, add_vertex_to_tree, commit"), ("queries", "t8_cmesh_get_vertex_to_tree_list, t8_cmesh_get_global_vertices_of_tree")],
  "property-based testing: random cell complexes and numberings, lists compared with an inverted map")

DWHY = ("Tests run a fixed sequence on one array and element type; which bytes move wrongly depends on the history, the element type, the node layout and "
        "the order in which messages arrive.")
P("D01", "Shared memory arrays hold on every process what was written or gathered",
  "For every shared memory type and distribution of processes over nodes, a shared array holds on all processes exactly the entries written in a writing "
  "window, gathered (with equal or varying counts), prefix-summed or copied into it. Element access, equality of two arrays and binary search with a "
  "user comparison agree with these entries.",
  ["histories", "configurations", "schedules"], "histories of operations over several arrays, entry types, counts including zero, process counts, node layouts, schedules", DWHY,
  ["src/t8_data/t8_shmem.c"],
  [("shared arrays", "t8_shmem_array_allgather, t8_shmem_array_allgatherv, t8_shmem_array_prefix, t8_shmem_array_copy, t8_shmem_array_binary_search")],
  "stateful property-based testing against plain vectors on an in-process MPI with generated node layouts and schedules")
P("D02", "Element arrays are sequences of elements, with correct sorted searches",
  "Under any history of creating, resizing, pushing, copying, truncating and viewing, an element array holds the same elements as an ordinary sequence, and its "
  "iterators enumerate, order and dereference them accordingly. In a sorted array of leaves the searches return the position of an element, the bounds for "
  "a linear id, and the first leaf that contains or lies in a given element, or report that there is none.",
  ["histories", "inputs"], "operation histories, all classes and schemes, sorted leaf arrays with and without gaps of any levels, query elements inside, between and outside the leaves", DWHY,
  ["src/t8_data/t8_containers.cxx", "src/t8_data/t8_element_array_iterator.hxx", "src/t8_forest/t8_forest.cxx", "src/t8_forest/t8_forest_private.h"],
  [("arrays", "t8_element_array_*"), ("searches", "t8_forest_bin_search_lower, t8_forest_bin_search_upper, t8_forest_bin_search_first_descendant_ancestor")],
  "stateful property-based testing against vectors of refinement paths and linear scans")
P("D03", "Vectors sent through a data handler arrive equal",
  "Packing a vector of user-defined items and unpacking it gives equal items, uses at most the announced number of bytes and advances the buffer position by "
  "those used, at any position. Vectors sent and received between processes, with given or wildcard source and with several messages under way, arrive "
  "unchanged and are matched with the right message.",
  ["inputs", "schedules"], "item types of fixed and varying size, nested vectors, empty vectors, message patterns, wildcards, schedules", DWHY,
  ["src/t8_data/t8_vector_handler.hxx", "src/t8_data/t8_data_handler.hxx"],
  [("pack, unpack, send, receive", "t8_vector_handler::pack_vector_prefix, unpack_vector_prefix, send, recv")],
  "property-based testing: round trips and generated message patterns on an in-process MPI with generated schedules")
VWHY = ("The existing tests only check that the files get written, or compare a few fixed outputs; nothing reads the files of random adaptive meshes back and "
        "compares every number.")
P("V01", "Forest output files describe exactly the forest that was written",
  "For every forest, number of processes and choice of options, t8_forest_vtk_write_file writes well-formed files: one piece per process with one cell per local "
  "element (and, if requested, per ghost), with its shape, corners, global tree id (-1 for ghosts), rank, level, global element id and user data per cell and at the "
  "corners, to the precision written. The header lists exactly the pieces and their arrays. A process whose file cannot be written completely returns false.",
  ["inputs", "configurations", "fault_sequences"], "forest histories, meshes, ghost layers, process counts, output options, data fields, unwritable files", VWHY,
  ["src/t8_vtk/t8_vtk_write_ASCII.cxx", "src/t8_vtk/t8_vtk.c", "src/t8_vtk/t8_vtk_writer.cxx"],
  [("forest writer", "t8_forest_vtk_write_ASCII"), ("header", "t8_write_pvtu")],
  "property-based testing: files of random forest histories parsed by an independent reader and compared with the forest; injected full device and missing directory")
P("V02", "Coarse mesh output files describe exactly the mesh that was written",
  "For every coarse mesh with vertices, replicated or partitioned, t8_cmesh_vtk_write_file writes well-formed files with one cell per local tree and ghost tree, with "
  "its class, vertex coordinates to the precision written, global tree id (-1 for ghosts) and rank; a replicated mesh is written once. The header lists exactly the "
  "pieces and their arrays. A process whose file cannot be written completely returns false.",
  ["inputs", "configurations", "fault_sequences"], "cell complexes of all classes, partitions including empty processes, unwritable files", VWHY,
  ["src/t8_vtk/t8_vtk_write_ASCII.cxx", "src/t8_vtk/t8_vtk.c", "src/t8_vtk/t8_vtk_writer.cxx"],
  [("coarse mesh writer", "t8_cmesh_vtk_write_ASCII"), ("header", "t8_write_pvtu")],
  "property-based testing: files of random partitioned cell complexes parsed by an independent reader and compared with the mesh; injected full device")

P("D04", "Vector, matrix and splitting helpers compute what they say",
  "For vectors of any dimension and scale the C and C++ helpers give the norm, distance, dot and cross products, linear combinations, normalized and "
  "rescaled vectors, triangle normals, tolerance comparisons and coplanarity of four points up to round-off, and change only their output. Every non-zero vector is "
  "completed to a right-handed orthogonal tripod of unit vectors. Rotations and matrix products are those of linear algebra, and splitting a sorted sequence by category "
  "yields the offsets of all categories, empty ones included.",
  ["inputs"], "vectors of all dimensions, special directions and magnitudes, arrays, ranges and pointers, point configurations, angles, category counts and distributions",
  "Tests use a handful of fixed vectors; a degenerate direction or an empty category in an unusual place is not among them.",
  ["src/t8_types/t8_vec.hxx", "src/t8_types/t8_vec.cxx", "src/t8_helper_functions"],
  [("vectors", "t8_norm, t8_dot, t8_axpyz, t8_orthogonal_tripod, t8_four_points_coplanar"), ("matrices", "t8_mat_*"), ("splitting", "vector_split")],
  "property-based testing against long double and integer arithmetic")
P("D05", "The tables of the element classes describe the reference cells",
  "For every element class the published numbers, reference corners and centroid, faces with their types, vertices and orientation, edges, the edges and faces they meet, the edge leaving a face at "
  "each vertex, boundary counts, VTK type and numbering and child count describe one and the same convex cell, identically in C and C++ and for element shapes; "
  "the comparison of classes of one dimension is a total order.",
  ["inputs"], "element classes, their faces, edges and vertices, placements of the cell, minimal dimensions",
  "Tests compare some numbers with themselves; a wrong entry for one face of one class shows only where the cell's geometry is rebuilt from its corners.",
  ["src/t8_eclass/t8_eclass.h", "src/t8_eclass/t8_eclass.c", "src/t8_element/t8_element.cxx", "src/t8_element/t8_element_shape.c"],
  [("tables", "t8_face_vertex_to_tree_vertex, t8_edge_to_face, t8_face_to_edge_neighbor, t8_eclass_vtk_to_t8_corner_number"), ("queries", "t8_eclass_compare, t8_eclass_count_boundary, t8_element_shape_*")],
  "property-based testing: faces and edges of randomly placed cells computed as convex hulls and compared with the tables")
MWHY = ("Tests run fixed cubes on the processes at hand and compare a few getters once; a stale cache, a wrong index or a missing face needs a history of commits, several "
        "processes, periodic or hybrid meshes and repeated queries.")
P("M01", "A mesh handle always shows exactly its forest",
  "After any history of settings (adapt with or without user data, partition, balance, ghosts, in any order) and commits, on any number of processes and with several handles "
  "at once, a mesh handle holds the same local and ghost elements in the same order as a forest taken through the same operations, and the adaptation callback sees the same "
  "elements and families of its own mesh. Every getter of every element (ids, level, shape, vertices, centroid, volume, diameter, face quantities, face neighbours with dual faces) returns what "
  "the forest computes, whatever is cached and however often it is asked. Settings without commit change nothing, forests are released or kept as their references say, and "
  "writing the handle writes the files of its forest.",
  ["histories", "inputs", "configurations", "schedules"], "histories of settings and commits, coarse meshes of all classes, cached and uncached element types, process counts, order and repetition of queries", MWHY,
  ["mesh_handle/mesh.hxx", "mesh_handle/element.hxx", "mesh_handle/internal/adapt.hxx", "mesh_handle/competences/cache_element_competences.hxx", "mesh_handle/constructor_wrappers.hxx", "mesh_handle/mesh_io.hxx"],
  [("handle", "mesh::commit, update_elements, set_adapt, operator[]"), ("elements", "element getters and their caches"), ("callback", "detail::adapt_registry, mesh_adapt_callback_wrapper")],
  "stateful property-based testing: handle and plain forest driven by the same generated history on an in-process MPI, compared query by query")
P("M02", "Element data, ranks and face list of a mesh handle are consistent with the mesh",
  "Data set for the whole mesh or element by element is read back for exactly these elements, and after an exchange every ghost carries the data its owner set; the rank "
  "vector names the owner of every ghost. For a balanced mesh with ghosts the face list contains each face of the local elements exactly once, with the right "
  "type (boundary, conformal, mortar, with or without a remote side), orientation, the large or primary side first, and all known sides with their faces and ranks; the element-to-face list refers "
  "to exactly these faces. All of it follows the mesh through further commits.",
  ["histories", "inputs", "configurations", "schedules"], "histories of commits, coarse meshes of all classes and dimensions including periodic ones, process counts, order of setting data", MWHY,
  ["mesh_handle/competences/element_data_competences.hxx", "mesh_handle/competences/dg_competences.hxx"],
  [("data", "set_element_data, exchange_ghost_data"), ("faces", "fill_unique_face_vector, fill_rank_vector")],
  "stateful property-based testing: data hashed from the elements, face list compared with the leaf neighbours of the forest on an in-process MPI")
