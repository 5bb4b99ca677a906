"""Property texts (source of properties.jsonl)."""
TESTS = "The tests check a handful of fixed {}; the property quantifies over all of them."

PROPS = {
 "C01": dict(
  title="Coordinate transformations are exact inverses for every basis",
  statement="For every invertible set of lattice vectors, converting lattice coordinates to world coordinates gives the corresponding linear combination of the vectors and converting back returns the original coordinates, for single points and batches alike. Translating a point adds exactly the lattice translation, and decomposing any point yields an integer cell and a remainder inside the unit cell that recombine to the point.",
  over=["inputs", "configurations"], quant="all invertible bases in 1-3 dimensions, all (batches of) points",
  why="Tests use a few fixed bases and points; a wrong transpose or a sign error can be invisible for symmetric or orthogonal bases.",
  mechanism=[("transform / itransform", "lattpy/basis.py:194-268"), ("translate / itranslate", "lattpy/basis.py:270-359"), ("construction", "lattpy/basis.py:92")]),
 "C02": dict(
  title="Reciprocal vectors are dual to the lattice vectors",
  statement="For every basis in one to three dimensions the reciprocal vectors b_j satisfy a_i . b_j = 2 pi delta_ij, the reciprocal lattice of the reciprocal lattice is the original lattice, and the check of given vectors accepts them exactly if all products a_i . b_j equal 2 pi delta_ij within the tolerance.",
  over=["inputs", "configurations"], quant="all invertible bases of dimension 1-3, all candidate vectors",
  why="Tests compare the reciprocal vectors of a few textbook lattices; the duality is a statement about all bases.",
  mechanism=[("reciprocal_vectors, is_reciprocal, reciprocal_lattice", "lattpy/basis.py:361-486")]),
 "C03": dict(
  title="Cell super-indices enumerate the cells of a shape one to one",
  statement="For every shape, the conversion of cell indices to super-indices is a bijection between the cells of the shape and the numbers 0..N-1 in row-major order, and the conversion back is its inverse. Single indices and batches agree.",
  over=["inputs"], quant="all shapes and all cell indices within them",
  why="Tests convert a few indices of one shape.",
  mechanism=[("get_cell_superindex / get_cell_index", "lattpy/basis.py:586-644")]),
 "C04": dict(
  title="Unit cells of the predefined lattices have the documented geometry",
  statement="For all lattice constants, the predefined bases have the documented vector lengths, angles and unit-cell volume. The volume and the size of a unit cell equal the absolute determinant and the extent of the cell for every basis.",
  over=["inputs", "configurations"], quant="all lattice constants of the predefined bases; all bases of dimension 1-3 for volume and size",
  why="Tests use lattice constant 1, where factors of the constant are invisible.",
  mechanism=[("predefined bases", "lattpy/basis.py:102-160"), ("cell_size / cell_volume", "lattpy/spatial.py:202-260")]),
 "C05": dict(
  title="Neighbors of the infinite lattice are complete and exact",
  statement="After analyzing a lattice with configured connections, the neighbors of an atom at each distance are exactly the sites of the infinite lattice at that distance whose atom is connected to it with at least that many distances, sorted by distance, with matching counts, positions and vectors. Neighbors are translation invariant, and queries never modify the structure. For lattice vectors of equal length the neighboring cells at each distance are the complete shell.",
  over=["inputs", "configurations"], quant="all lattice constants and structure parameters, all atoms, distances and cells",
  why="Tests look at neighbor counts of a few predefined lattices with lattice constant 1; anisotropic cells, atoms outside the cell and shifted queries are not reached.",
  mechanism=[("neighbors of the unit cell", "lattpy/structure.py:454-640"), ("get_neighbors, get_neighbor_positions, get_neighbor_vectors", "lattpy/structure.py:728-878"), ("positions", "lattpy/structure.py:643-727"), ("get_neighbor_cells", "lattpy/basis.py:488")]),
 "C06": dict(
  title="A built lattice contains exactly the sites inside the shape",
  statement="Building a finite lattice yields every lattice site inside the given box or shape (boundary included) exactly once and no other site, at its correct position and with the data of its atom. This holds for every size, position, shape object, callback filter and for boxes given in units of the lattice vectors, and rebuilding discards the previous model completely. The translation vectors of a shape and the test of points follow the same rule.",
  over=["inputs", "configurations", "histories"], quant="all box sizes and positions, circle and donut radii and centres, callback results, sequences of builds",
  why="Tests build lattices with a few integer sizes at the origin; non-integer sizes, shifted boxes and skewed cells are where translation bounds are lost.",
  mechanism=[("build_translation_vectors / build_indices", "lattpy/structure.py:999-1225"), ("check_points", "lattpy/structure.py:941"), ("build", "lattpy/lattice.py:396-486")]),
 "C07": dict(
  title="Neighbors of a finite lattice are the infinite neighbors inside it",
  statement="In a built lattice two sites are neighbors exactly if both belong to the model and they are neighbors in the infinite lattice, with the correct distance. The relation is symmetric and all views of it (per distance, nearest, unique, pairs, counts, distances, adjacency matrix) agree.",
  over=["inputs", "configurations"], quant="all lattice constants; all sites and distances of the built models",
  why="Tests compare neighbor lists of a few lattices of one fixed size and scale; index data types, fill values and distance tables depend on configuration.",
  mechanism=[("compute_neighbors", "lattpy/structure.py:1226-1355"), ("LatticeData views", "lattpy/data.py:407-460"), ("views of the lattice", "lattpy/lattice.py:311-390"), ("pairs and adjacency", "lattpy/lattice.py:1027-1117")]),
 "C08": dict(
  title="Periodic boundary conditions turn the lattice into a torus",
  statement="Setting periodic axes connects exactly the pairs of sites that are neighbors in the infinite lattice up to translations by the period along these axes, at the correct distance; all other sites keep their neighbors. Changing or removing the periodic axes again gives the same result as setting them on a freshly built lattice.",
  over=["inputs", "configurations", "histories"], quant="all lattice constants, choices of periodic axes and sequences of changes",
  why="Tests check the neighbor count of one chain and one square lattice; corners, small systems, several distances and repeated changes are not covered.",
  mechanism=[("set_periodic", "lattpy/lattice.py:646-703"), ("periodic neighbors", "lattpy/lattice.py:488-644"), ("periodic data", "lattpy/data.py:472-533")]),
 "C09": dict(
  title="Removing sites keeps the rest of the lattice intact",
  statement="Removing any set of sites, given as number, list, array or negative index, deletes exactly these sites and every neighbor entry that refers to them. All other sites keep their order, position, atom and their mutual neighbors with distances and periodic markers, and the arguments are not modified.",
  over=["inputs", "histories"], quant="all valid neighbor tables and all sets of removed sites",
  why="Tests remove a fixed site from one small chain; renumbering errors need specific combinations of removed sites and neighbors.",
  mechanism=[("LatticeData.remove", "lattpy/data.py:325-362")]),
 "C10": dict(
  title="Sorting and editing neighbor data preserves the site graph",
  statement="Sorting the sites by an axis or any permutation relabels them consistently: every site keeps its position, atom and neighbors with distances and periodic markers. Sorting neighbors only reorders them by distance, removing periodic neighbors deletes exactly these, and adding (periodic) neighbors or appending the data of other sites adds exactly the given ones without losing existing ones.",
  over=["inputs", "histories"], quant="all valid neighbor tables, permutations, axes and added neighbors",
  why="Tests sort one lattice by one axis; relabelling errors cancel for symmetric permutations.",
  mechanism=[("sort, sort_neighbors", "lattpy/data.py:505-545"), ("remove_periodic, add_neighbors", "lattpy/data.py:526-556"), ("free slots", "lattpy/data.py:444-503")]),
 "C11": dict(
  title="Appending, extending and repeating equals building the union at once",
  statement="Appending a lattice, extending a lattice by a size or repeating it along an axis on either side gives the same sites, positions and neighbor relations as building the combined region in one go, for every axis and sort order. Periodic neighbors of the parts do not leak into the result and the appended lattice is left unchanged. The computed connections between two lattices are exactly their connected pairs.",
  over=["inputs", "configurations", "histories"], quant="all lattice constants, axes, sides, sizes and sort orders within the bounds",
  why="Tests compare a few aligned chains and squares; sides, offsets, more distances and several atoms are not covered.",
  mechanism=[("append, extend, repeat", "lattpy/lattice.py:813-1021"), ("connections", "lattpy/lattice.py:705-756"), ("LatticeData.append", "lattpy/data.py:558-613")]),
 "C12": dict(
  title="Every history of operations leaves a consistent model and matrices",
  statement="After any sequence of building, sorting, removing sites, repeating, appending, changing periodic axes and sorting neighbors, all views of the model (neighbor lists, pairs, distances, adjacency matrix, data map) describe the same symmetric graph on the remaining sites. Matrices assembled from the data map have each on-site value on the diagonal of its atom and each hopping value exactly at the neighbor pairs of its distance, also with several orbitals per site.",
  over=["histories", "inputs"], quant="all sequences of up to three operations with all arguments; all on-site and hopping values",
  why="Tests run single operations; stale caches and inconsistent tables need sequences.",
  mechanism=[("data map", "lattpy/data.py:45-215"), ("cached map", "lattpy/data.py:653-673"), ("views", "lattpy/lattice.py:1023-1117")]),
 "C13": dict(
  title="A minimum number of neighbors removes exactly the dangling sites",
  statement="Building with a minimum number of neighbors removes exactly the sites that have fewer neighbors in the full model; the remaining sites keep their positions and their mutual neighbors.",
  over=["inputs", "configurations"], quant="all thresholds and all site selections of the models",
  why="Tests use one lattice and one threshold.",
  mechanism=[("build (min_neighbors)", "lattpy/lattice.py:440-475"), ("remove", "lattpy/data.py:325-362")]),
 "C14": dict(
  title="Shapes contain exactly the points of their geometry",
  statement="A box (also one given in units of basis vectors), circle, donut or convex hull contains a point exactly if the point lies in its closed region, enlarged by the given tolerance. The limits of a shape are the tightest axis-aligned bounds of its region, whatever the size, position or basis, so no contained point lies outside of them.",
  over=["inputs", "configurations"], quant="all sizes, positions, radii, tolerances and query points; the listed bases and hulls",
  why="Tests query a few points of one shape at the origin; tilted bases, offsets and tolerances are where containment and limits disagree.",
  mechanism=[("Shape", "lattpy/shape.py:48-145"), ("Circle, Donut", "lattpy/shape.py:161-245"), ("ConvexHull", "lattpy/shape.py:262-302")]),
 "C15": dict(
  title="Array helpers enumerate, merge and index without loss",
  statement="The vector ranges contain every integer or grid vector of the requested box exactly once, sorted along the requested axis. Interweaving keeps every value and the order of the rows, look-up tables reproduce the original array, the minimal data type holds the given numbers, and chaining pairs consecutive items.",
  over=["inputs"], quant="all box offsets, values and tables within the bounds",
  why="Tests use a few small arrays; overflow of small data types and truncation need large offsets, many values or mixed types.",
  mechanism=[("interweave, vindices, vrange", "lattpy/spatial.py:91-225"), ("create_lookup_table, min_dtype, chain", "lattpy/utils.py:115-203")]),
 "C16": dict(
  title="Distances and rotations follow Euclidean geometry",
  statement="Distances are the Euclidean ones, rounded only if requested, for single vectors and row by row. Rotations are proper rotations about their axis that keep lengths and agree between degrees and radians. Vectors computed from lengths and angles have exactly these lengths and angles, and tree queries find exactly the points within the distance.",
  over=["inputs"], quant="all vectors and all rotation angles; all lengths for the listed cell angles",
  why="Tests compare a few values; swapped signs, axes or angles are invisible for right angles and equal lengths.",
  mechanism=[("distance, distances", "lattpy/spatial.py:43-89"), ("compute_vectors", "lattpy/spatial.py:284-317"), ("rotations", "lattpy/spatial.py:536-590"), ("KDTree", "lattpy/spatial.py:319-371")]),
 "C17": dict(
  title="Atoms are named, independent parameter mappings",
  statement="The parameters of an atom behave like a dictionary under every sequence of setting, deleting and reading, through items and attributes alike. Atoms are equal, and have equal hashes, exactly if their names are equal, and copies and other atoms never share parameters.",
  over=["histories", "inputs"], quant="all sequences of up to three changes with all keys and values",
  why="Tests set and read single parameters; shared state and stale attributes need sequences.",
  mechanism=[("Atom", "lattpy/atom.py:20-153")]),
 "C18": dict(
  title="Configuration is checked and takes effect exactly as given",
  statement="An atom position can be used only once, and refused atoms or wrong dimensions leave the configuration unchanged. Connections addressed by index, name or atom are stored symmetrically for exactly these pairs. Constructor arguments equal the step by step configuration. Missing configuration is reported by the documented errors, and adding an atom invalidates a previous analysis.",
  over=["inputs", "histories", "configurations"], quant="all atom positions, connection arguments and sequences of configuration steps",
  why="Tests configure a few lattices in the right order; refused steps, name clashes and wrong orders are not reached.",
  mechanism=[("add_atom, get_alpha, get_atom, add_connection(s)", "lattpy/structure.py:177-450"), ("constructor", "lattpy/structure.py:103-140"), ("guards", "lattpy/structure.py:538-549"), ("errors", "lattpy/utils.py:54-113"), ("get_base_atom_dict", "lattpy/structure.py:902")]),
 "C19": dict(
  title="Wigner-Seitz cells and Brillouin zones are the region closest to the origin",
  statement="A point belongs to the Wigner-Seitz cell (the Brillouin zone for the reciprocal lattice) exactly if no lattice point is closer to it than the origin. The vertices span exactly this region, the limits enclose it, the symmetry points are its corners, edge and face centres, and grids mask exactly the points outside of it.",
  over=["inputs"], quant="all query points, for a set of lattices in one to three dimensions",
  why="Tests look at the limits and vertices of a few high-symmetry lattices.",
  mechanism=[("VoronoiTree, WignerSeitzCell", "lattpy/spatial.py:374-533"), ("wigner_seitz_cell, brillouin_zone", "lattpy/basis.py:488-585")]),
 "C20": dict(
  title="Dispersion paths visit their points on evenly sampled straight sections",
  statement="A path through given points samples each section between consecutive points evenly, including both ends, in the given order; cycling closes it. Ticks, labels, edges, section lengths and scales refer to the same sections, dispersion plots draw every sample with sections as wide as their scale, and the predefined paths use the high-symmetry points of the lattice constant.",
  over=["inputs"], quant="all points in one to three dimensions and all lattice constants",
  why="Tests build one predefined path and look at its length.",
  mechanism=[("DispersionPath", "lattpy/disptools.py:278-476"), ("plot_dispersion, plot_disp_dos (drawn lines)", "lattpy/disptools.py:41-203")]),
 "C21": dict(
  title="Minimum distances respect the periodic boundary conditions",
  statement="The minimum distances of a site to all sites of a periodic lattice are the shortest distances over all periodic images along the periodic axes, including those that cross several boundaries.",
  over=["inputs", "configurations"], quant="all lattice constants, all sites and choices of periodic axes",
  why="Tests compute the distances of one chain.",
  mechanism=[("minimum_distances", "lattpy/lattice.py:758-800"), ("periodic_translation_vectors", "lattpy/lattice.py:517-552")]),
 "C22": dict(
  title="Predefined lattices have the documented structure",
  statement="For all lattice constants, the predefined lattice functions return a lattice with the documented vectors, atoms, names and neighbors of the requested number of distances. Finite hypercubic lattices have exactly the requested cells, in every dimension and also with periodic boundary conditions.",
  over=["inputs", "configurations"], quant="all lattice constants and all predefined lattices with one to three distances",
  why="Tests use the default lattice constant 1, where a missing factor is invisible.",
  mechanism=[("predefined lattices", "lattpy/__init__.py:76-452"), ("predefined bases", "lattpy/basis.py:102-160")]),
 "C23": dict(
  title="Copies and stored lattices are equal and independent",
  statement="Copying a lattice, storing and loading it, or restoring it from its dictionary gives a lattice with the same structure, sites, neighbors and atom parameters that compares equal for copies. No later change of one of them is visible in the other, and lattices with a different configuration or size compare unequal.",
  over=["histories", "inputs"], quant="all lattice constants and all changes on either side out of ten operations",
  why="Tests compare a copy right after copying; shared state needs a later change.",
  mechanism=[("copy, todict, fromdict, dump, load (structure)", "lattpy/structure.py:1357-1452"), ("copy, dump, load, comparison (lattice)", "lattpy/lattice.py:1119-1190"), ("Atom", "lattpy/atom.py:41-90")]),
 "C24": dict(
  title="Limits and site selections match the site positions",
  statement="The reported limits of positions and indices are the exact extrema over all sites, and selecting sites by minima and maxima or by distance to the outer boundary returns exactly the sites whose coordinates satisfy the bounds.",
  over=["inputs"], quant="all site positions and all bounds",
  why="Tests query one lattice with one pair of bounds.",
  mechanism=[("limits", "lattpy/data.py:364-405"), ("site_mask, find_sites, find_outer_sites", "lattpy/data.py:675-761")]),
 "C25": dict(
  title="Site queries identify sites, atoms and centres correctly",
  statement="Looking up a site by its index or by a position within the tolerance returns exactly that site, or nothing if there is none. The atom, position, neighbor distance, relative position, centre and centre of gravity of a lattice follow from its sites and the masses of its atoms, and the estimated cell of a position is the closest one.",
  over=["inputs"], quant="all positions, tolerances, fractions, masses and lattice constants",
  why="Tests look up a few exact positions.",
  mechanism=[("queries", "lattpy/lattice.py:169-310"), ("check_neighbors", "lattpy/lattice.py:371"), ("get_positions", "lattpy/data.py:615"), ("estimate_index", "lattpy/structure.py:703")]),
 "C26": dict(
  title="Fourier weights sum the phases of exactly the neighbors at a distance",
  statement="For every wave vector k, atom and distance of an analyzed lattice, the Fourier weight is the sum of exp(i k.v) over the vectors v to all neighbors of the atom at that distance. At k = 0 it is the number of these neighbors, and the opposite wave vector gives the complex conjugate.",
  over=["inputs", "configurations"], quant="all wave vectors, all atoms and distances",
  why="No test evaluates the weights at all.",
  mechanism=[("fourier_weights", "lattpy/structure.py:879"), ("get_neighbor_vectors", "lattpy/structure.py:830")]),
}

NA = {}
