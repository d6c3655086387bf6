"""Writes /verif/properties.jsonl (kept as code only because JSON lines are hard to edit)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
    })


S = "src/wulfric/"
prop("C01", "Cell algebra: reciprocal cells, volumes, products, basis change",
     "For every non-singular cell the reciprocal cell satisfies a_i . b_j = 2 pi delta_ij, the reciprocal of the reciprocal is the original cell, and the matrix returned for a pair of cells expresses the transformed vectors in the original ones, (a1',a2',a3') = (a1,a2,a3) P. The volume equals |a1 . (a2 x a3)| and is the same for the matrix, three-vector and six-parameter forms; the scalar products are those of the documented pairs. Lists and arrays are accepted alike and the arguments are not modified.",
     ["inputs"], "all real 3x3 cells (determinant non-zero where an inverse is needed), all positive lengths and admissible angles",
     "the tests sample a handful of cells and hypothesis arrays with loose tolerances; an index or transposition slip on a rarely non-symmetric matrix element is invisible for orthogonal samples",
     [S + "cell/_basic_manipulation.py", S + "geometry/_geometry.py"],
     [("get_reciprocal", S + "cell/_basic_manipulation.py"), ("get_scalar_products", S + "cell/_basic_manipulation.py"), ("get_transformation_matrix", S + "cell/_basic_manipulation.py"), ("get_volume", S + "geometry/_geometry.py")])
prop("C02", "Lattice parameters determine the cell and are recovered from it",
     "The cell built from six admissible lattice parameters has exactly those lengths and angles, its first vector along +x, its second in the xy plane with positive y, and positive z of the third; parameters read from any non-singular cell are its vector lengths and its inter-vector angles in degrees, in the documented order. Parameters are judged admissible exactly when the documented inequalities hold beyond the tolerances, an error is raised for inadmissible ones exactly when asked to (and always by the constructor), and the angle between two non-zero vectors is the arc cosine of their normalised product, independent of their lengths.",
     ["inputs"], "all real lengths and angles, all non-singular 3x3 cells, all pairs of vectors",
     "a wrong sign or swapped angle shows only for triclinic parameters; the inequality list has fifteen clauses of which samples exercise few individually",
     [S + "cell/_basic_manipulation.py", S + "geometry/_geometry.py"],
     [("from_params", S + "cell/_basic_manipulation.py"), ("get_params", S + "cell/_basic_manipulation.py"), ("get_angle", S + "geometry/_geometry.py"), ("parallelepiped_check", S + "geometry/_geometry.py")])
prop("C03", "Tolerance comparison follows its formal definition",
     "Each of the six comparisons with tolerance returns exactly what the documented table says for the given tolerance, or for atol + rtol*|y| when no tolerance is given; exactly one of 'less', 'equal', 'greater' holds and the remaining three are the documented complements, and any other operator is an error.",
     ["inputs"], "all reals x, y, all non-negative tolerances, all six operators",
     "samples rarely land at the tolerance boundary, where a strict/non-strict slip or a tolerance scaled by the wrong argument decides the answer",
     [S + "_numerical.py"], [("compare_with_tolerance", S + "_numerical.py")])
prop("C04", "Spherical coordinates describe the vector",
     "For a non-zero vector, the returned radius is its length, the polar angle in [0, 180] degrees is the angle to the polar axis, and the azimuth in [0, 360] degrees is the right-handed rotation angle about the polar axis from the given zero direction to the projection of the vector, so that the three numbers reconstruct the vector. Along the axis the azimuth is 0, against it 180 degrees; radians and degrees agree, and the lengths of the axis and of the zero direction do not matter.",
     ["inputs"], "all non-zero vectors, all non-zero polar axes and non-zero directions perpendicular to them",
     "the tests use vectors in coordinate planes with the default axes; a half-space sign error needs a generic vector with a rotated axis",
     [S + "geometry/_geometry.py"], [("get_spherical", S + "geometry/_geometry.py")])
prop("C05", "Niggli reduction is a proper integer change of basis to a reduced cell",
     "Whatever sequence of reduction steps the built-in Niggli implementation takes, the returned cell spans the same lattice through an integer matrix of determinant +1, and when it returns the cell satisfies the Niggli conditions within the tolerance. A cell that already satisfies them is recognised as reduced at once. A cell of zero volume is rejected, and running out of iterations is an error and not a result.",
     ["inputs", "histories"], "all real non-singular cells; every reduction step from an arbitrary state, hence reduction sequences of any length",
     "tests reduce a few cells; which of the eight steps fires, with which signs, depends on rare orderings of six numbers, and borderline zeros take separate branches",
     [S + "cell/_niggli.py"], [("get_niggli", S + "cell/_niggli.py"), ("_niggli_step_1.._niggli_step_8", S + "cell/_niggli.py")])
prop("C06", "Wigner-Seitz and Brillouin zone data are consistent with the lattice",
     "The enumerated lattice points are exactly the integer combinations within the requested ranges, each once and equal to the same combination of the cell vectors. The zone vertices and edges reported for a cell are those of the cell around the origin in the Voronoi tessellation of the lattice points: every edge joins two distinct existing vertices, no edge or vertex is repeated, and every face side is present; the Brillouin zone of a cell is the Wigner-Seitz zone of its reciprocal cell.",
     ["inputs"], "all real cells, all ranges up to 3 per direction, any region structure reported by the tessellation library",
     "tests check counts for a few lattices; index bookkeeping between library output and the returned lists depends on how the library numbers its vertices",
     [S + "cell/_voronoi.py"], [("get_lattice_points", S + "cell/_voronoi.py"), ("_get_voronoi_cell", S + "cell/_voronoi.py"), ("get_wigner_seitz_cell / get_brillouin_zone", S + "cell/_voronoi.py")])
prop("C07", "Conventional cell: same crystal, right orientation, documented choice",
     "For every lattice type and convention (SC, HPKOT) the conventional cell spans the same lattice as the standardised cell it is derived from, through an integer matrix of determinant +1, satisfies the documented choice of axes and angles for its type, and the returned atoms occupy the same sites with unchanged species. The choice is made for every admissible set of lattice parameters, including ties.",
     ["inputs"], "all lattice parameters admissible for each of the 14 Bravais lattice types; all atom positions",
     "each type has several branches picked by orderings of lengths, angles or metric products; tests visit one set of parameters per type, and ties are never visited",
     [S + "crystal/_conventional.py"], [("get_conventional", S + "crystal/_conventional.py"), ("_sc_get_conventional_*", S + "crystal/_conventional.py"), ("_hpkot_get_conventional_a", S + "crystal/_conventional.py")])
prop("C08", "Primitive cell generates the conventional crystal",
     "The primitive cell spans exactly the lattice of the conventional cell together with its centring translations, its volume is the conventional one divided by the number of centring points, and the primitive atoms are one representative per orbit of the conventional atoms under those translations, with coordinates in [0, 1). Per-atom data of each primitive atom come from an input atom of the same type.",
     ["inputs"], "all conventional cells, all centring types, all atom positions, in both conventions",
     "tests check cells of examples, never that atoms are kept or duplicated for arbitrary coordinates near 0 and 1",
     [S + "crystal/_primitive.py", S + "constants/_sc_convention.py", S + "constants/_hpkot_convention.py"], [("get_primitive", S + "crystal/_primitive.py"), ("SC_CONVENTIONAL_TO_PRIMITIVE / HPKOT_CONVENTIONAL_TO_PRIMITIVE", S + "constants")])
prop("C09", "Lattice variation and extended symbol match the published conditions",
     "The Setyawan-Curtarolo variation and the HPKOT extended Bravais symbol returned for a lattice are those the publications assign to its parameters, for every admissible parameter set and centring, exactly one variation per lattice, and an error only where the publications leave the case undefined.",
     ["inputs"], "all admissible lattice parameters of each Bravais lattice type; all space group numbers",
     "the conditions are inequalities between parameters whose boundary and rarely taken alternatives are not sampled",
     [S + "crystal/_sc_variation.py", S + "crystal/_hpkot_extended_bl_symbol.py"], [("sc_get_variation", S + "crystal/_sc_variation.py"), ("hpkot_get_extended_bl_symbol", S + "crystal/_hpkot_extended_bl_symbol.py")])
prop("C10", "HPKOT special points are the published ones",
     "For each HPKOT extended Bravais symbol, the relative coordinates of every special point equal the published formula for all lattice parameters of that variation, and the default path is the published one and visits only points that exist.",
     ["inputs"], "all lattice parameters of each extended Bravais symbol",
     "about 250 parameter-dependent formulas; tests only check that something is returned",
     [S + "kpoints/_hpkot_points.py", S + "constants/_hpkot_convention.py"], [("_hpkot_get_points", S + "kpoints/_hpkot_points.py"), ("HPKOT_DEFAULT_K_PATHS", S + "constants/_hpkot_convention.py")])
prop("C11", "Setyawan-Curtarolo special points are the published ones",
     "For each Setyawan-Curtarolo lattice variation, the relative coordinates of every special point equal the published formula for all lattice parameters of that variation, and the default path is the published one and visits only points that exist.",
     ["inputs"], "all lattice parameters of each of the 25 variations",
     "about 200 parameter-dependent formulas; tests only check that something is returned",
     [S + "kpoints/_sc_points.py", S + "constants/_sc_convention.py"], [("_sc_get_points", S + "kpoints/_sc_points.py"), ("SC_DEFAULT_K_PATHS", S + "constants/_sc_convention.py")])
prop("C12", "Paths and points of a crystal are complete and mutually consistent",
     "For a crystal, every point named in the returned path has coordinates; relative coordinates refer to the primitive cell's reciprocal vectors and absolute coordinates are their Cartesian image; expressed for another cell of the same lattice they describe the same Cartesian points. Without time-reversal symmetry and inversion centre the path is extended by the inverted points, named with a suffix, and only then.",
     ["inputs", "configurations"], "all variations of both conventions, all lattice parameters, all space groups, both coordinate modes and both time-reversal settings",
     "combinations of convention, variation, inversion and coordinate mode are not enumerated by the tests",
     [S + "kpoints/_path_and_points.py"], [("get_path_and_points", S + "kpoints/_path_and_points.py")])
prop("C13", "K-point object keeps points, path, labels and ticks consistent",
     "After any sequence of adding and removing special points and setting the path, every point on the path exists, relative and Cartesian coordinates correspond through the reciprocal cell, and the generated k-points start and end each section at its special points with the requested number of points between, with labels, tick positions and the cumulative distances in agreement. A path text and the equivalent nested list denote the same path, and objects do not share or alter the data they were built from.",
     ["histories", "inputs"], "all histories of up to 3 edit operations from an object with 3 points, all coordinates and reciprocal cells, paths of up to 7 sections, up to 6 intermediate points",
     "tests perform single operations; aliasing and stale-path errors need particular sequences",
     [S + "_kpoints_class.py"], [("Kpoints", S + "_kpoints_class.py")])
prop("C14", "Editing atoms keeps the crystal the same",
     "Shifting atoms translates every position by one common shift that puts the middle between the smallest and largest coordinate at the requested gravity point, in relative or Cartesian coordinates. Curing negative coordinates is the smallest common non-negative shift after which no coordinate is negative; bringing atoms to the origin cell changes each coordinate by an integer and leaves it in [0, 1]. The vector between two atoms is R + r2 - r1 in relative coordinates, or its Cartesian image, and the distance is its Cartesian length. Species, order and all other per-atom data stay as they were, and functions that return a result do not alter their arguments.",
     ["inputs"], "all real cells and positions, up to 5 atoms",
     "tests use one or two atoms at friendly positions",
     [S + "crystal/_basic_manipulation.py", S + "_numerical.py"], [("shift_atoms, cure_negative, ensure_000, get_vector, get_distance", S + "crystal/_basic_manipulation.py")])
prop("C15", "Atom dictionaries: validation, species and unique names",
     "Validation accepts an atoms dictionary exactly when the documented conditions hold, raises exactly when asked to, and never raises otherwise. The species deduced from a name is a chemical symbol that occurs in the name (case-insensitively), a two-letter symbol whenever one occurs, 'X' exactly when none occurs, with an error instead exactly when asked for; and after making names unique all names are pairwise distinct, in order, each extending the original one, with unique ones untouched in the partial mode.",
     ["inputs"], "all combinations of present/absent keys and length mismatches up to 12 atoms; all equality patterns of names",
     "names colliding only after numbering, and particular mixes of missing keys, are not sampled",
     [S + "crystal/_atoms.py", S + "crystal/_crystal_validation.py"], [("get_atom_species, get_atoms_species, get_unique_names", S + "crystal/_atoms.py"), ("validate_atoms", S + "crystal/_crystal_validation.py")])
prop("C16", "Symmetry-library types and data are honoured",
     "Atoms receive equal integer types exactly when they agree in the attributes that the documentation says define the type, and the answer of the symmetry library is forwarded faithfully: the conventional cell rotated back to the orientation of the crystal, the primitive cell and the atoms as given, the original data recorded independently of the caller's objects. A dataset computed for another cell, other positions or other types is rejected.",
     ["inputs"], "up to 12 atoms with any equality pattern of types, names and species; any disagreement of cell, positions or types",
     "which attribute wins in which combination, and mismatches in a single atom, are not sampled",
     [S + "_spglib_interface.py", S + "crystal/_atoms.py", S + "crystal/_crystal_validation.py"], [("get_spglib_types", S + "crystal/_atoms.py"), ("validate_spglib_data", S + "crystal/_crystal_validation.py")])
prop("C17", "POSCAR writing and reading round-trips the crystal",
     "A crystal written to POSCAR and read back has the same cell, the same sites and species up to the printed precision, in Direct and Cartesian mode, whatever the order in which species alternate; reading honours one scale factor, a negative one as a target volume and three component factors, comments, selective dynamics and files without a species line, from a file object, a file name, a directory or the current directory. Writing does not alter its arguments and keeps the comment on one line.",
     ["inputs"], "all cells, all positions, up to 3 species and 5 atoms in every order, all scale factors, all mode and header variants",
     "one sample file at most; interleaved species, negative scale and selective dynamics combinations are not covered",
     [S + "io/_vasp.py"], [("load_poscar", S + "io/_vasp.py"), ("dump_poscar", S + "io/_vasp.py")])
prop("C18", "Attribute-style access to dictionaries is transparent",
     "Adding attribute access to a dictionary leaves its content unchanged and reading, writing or deleting through attributes is the same as through keys; removing it gives back a plain dictionary with the same content; deleting a missing key is an error, and missing attributes are reported as such.",
     ["histories"], "all histories of up to 3 reads, writes and deletions over symbolic values",
     "tests do not exercise it",
     [S + "_syntactic_sugar.py"], [("SyntacticSugar, add_sugar, remove_sugar", S + "_syntactic_sugar.py")])
prop("C19", "Example cells are the documented lattices",
     "Each Setyawan-Curtarolo example constructor returns the primitive cell of the lattice with the given parameters: applying the inverse of the centring matrix gives a conventional cell with exactly those lengths and angles, in the documented arrangement; inadmissible triclinic parameters are rejected, and every documented variation name, in any letter case, and no other name, gives an example cell. HPKOT examples exist for exactly the documented symbols (a two-letter symbol stands for its first variation), have a cell of the shape of the crystal family, and an inversion centre exactly when one is asked for.",
     ["inputs"], "all admissible parameters of the 14 lattice constructors",
     "tests call each constructor with one parameter set",
     [S + "cell/_sc_examples.py"], [("SC_CUB .. SC_TRI", S + "cell/_sc_examples.py")])
prop("C20", "Space group tables agree with International Tables",
     "For every space group number from 1 to 230, the crystal family, centring letter and presence of an inversion centre recorded in the tables are the ones of the International Tables, and the conventional-to-primitive matrices of both conventions are the ones of the publications.",
     ["inputs"], "all 230 space group numbers, all centring letters",
     "tests check only that keys exist",
     [S + "constants/_space_groups.py", S + "constants/_sc_convention.py", S + "constants/_hpkot_convention.py"], [("SPACE_GROUP_TO_* tables", S + "constants/_space_groups.py")])
prop("C21", "Detected symmetry is the true symmetry",
     "The symmetry dataset attached to a crystal is the one of its true space group within the requested precision.",
     ["inputs"], "all crystals",
     "tests sample a few crystals", [S + "_spglib_interface.py"], [("get_spglib_data", S + "_spglib_interface.py")])
prop("C22", "Plots show the given objects: right place, once, in view",
     "Everything a PlotlyEngine method draws is where it is in the crystal: points and lines at the given coordinates, an arrow with its tip at the end of the vector and along it, a cell as the twelve edges of its parallelepiped (each once) with its three labelled vectors, zones as the edges of the zone of the cell (of the reciprocal cell for the Brillouin zone), k-path and k-points at their Cartesian coordinates with the right names and numbers in the hover text, lattice points as all integer combinations in range, atoms at their Cartesian positions with their names, the colours of their species (or the given ones) and their own properties in the hover text; a shift translates all of it. It is drawn in the requested subplot, appears in the legend exactly once if it has a label and never without one, and the arguments are not changed. When the plot is shown or saved everything drawn in a subplot is inside of the displayed axes, all axes have the same scale, and a wrong legend position is an error before anything is shown.",
     ["inputs", "configurations", "histories"], "all real coordinates, cells and shifts; every combination of labels, groups, subplots and forms of the arguments; sequences of two objects in one or two subplots",
     "the tests never look at a figure: an edge drawn twice, a transposed product or an axis range that misses an object goes unnoticed; which object fixes the range depends on the order and the values",
     [S + "_plotly_engine.py"], [("PlotlyEngine.plot_points/plot_line/plot_vector/plot_cell/plot_wigner_seitz_cell/plot_brillouin_zone/plot_kpath/plot_kpoints/plot_lattice/plot_atoms", S + "_plotly_engine.py"), ("PlotlyEngine.show/save/_update_range/_update_fig_aspect_range", S + "_plotly_engine.py")])

prop("C23", "Calls are independent, their results are valid input",
     "A function answers from its arguments alone. No call changes the cell, the atoms, the symmetry data, the path or the tables of constants that it is given or uses, and nothing a caller later does to a returned cell, dictionary, list or array changes them, earlier results or the answer of a later call: the same call gives the same answer whatever was called in between. Passing the symmetry data of the crystal or leaving them out makes no difference. The crystal returned as conventional or primitive one is valid input for every function that takes a cell and atoms.",
     ["inputs", "histories"], "all lattice parameters of the 15 lattice types in three conventions; histories of calls with edits of their results in between; arguments as lists and as arrays",
     "an array handed out instead of a copy shows only when somebody writes into a result and asks again with the same symmetry data; tests call each function once and read the answer",
     [S + "crystal/_conventional.py", S + "crystal/_primitive.py", S + "_spglib_interface.py", S + "kpoints/_path_and_points.py", S + "_kpoints_class.py", S + "cell/_basic_manipulation.py", S + "crystal/_basic_manipulation.py"],
     [("get_conventional", S + "crystal/_conventional.py"), ("get_primitive", S + "crystal/_primitive.py"), ("SpglibData, get_spglib_data, validate_spglib_data", S + "_spglib_interface.py"), ("get_path_and_points", S + "kpoints/_path_and_points.py"), ("Kpoints", S + "_kpoints_class.py"), ("get_reciprocal, get_params, get_transformation_matrix", S + "cell/_basic_manipulation.py"), ("get_vector, get_distance, shift_atoms", S + "crystal/_basic_manipulation.py")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
