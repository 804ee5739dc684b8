#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here as data so that it is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Every symmetry class of colourings is enumerated exactly once",
  "For any supercell symmetry group and any composition, a full enumeration that keeps superperiodic structures returns only labellings of exactly that composition, no two of which are related by a symmetry of the group, and at least one from every symmetry class. This holds for any number of species, for any order of the concentrations, and whether the group comes from a lattice or is any other permutation group of the sites.",
  ["inputs"], "all permutation groups of the sites, all compositions and species orders",
  "The tests compare a handful of stored lists for a few fcc/sc groups; completeness and irredundance are claims about every group and composition, and depend on the traversal, pruning and stabilizer bookkeeping of the search tree.",
  ["phenum/tree.py", "phenum/phonons.py"],
  [("tree traversal with mixed-radix counter", "phenum/tree.py:brancher"), ("orbit pruning and stabilizers per level", "phenum/tree.py:_perm"), ("labelling numbering", "phenum/tree.py:_hash/_invhash")],
  ["return value of brancher", "return value of enum_sys"],
  [("branch, i, b0", "position in the search tree", "phenum/tree.py:brancher"), ("stabalizer, order", "remaining symmetry per level, first-level numbers already seen", "phenum/tree.py:brancher")])

p("C02", "Superperiodic structures are excluded, and nothing else is",
  "When superperiodic structures are not asked for, a full enumeration returns exactly one representative of every symmetry class (coloured, or coloured and displaced) that is not left unchanged by a non-trivial lattice translation of the supercell, and none of a class that is. Asking for superperiodic structures adds precisely those classes and changes nothing else.",
  ["inputs", "configurations"], "all supercells, compositions, displacement patterns, with and without the superperiodic option",
  "Tests hold a few lists produced with the flag on or off; which classes are superperiodic depends on the translation subgroup of every shape and on the arrows as well as the colours.",
  ["phenum/tree.py", "phenum/phonons.py"],
  [("translation test in the tree", "phenum/tree.py:brancher"), ("translation test for arrow patterns", "phenum/phonons.py:add_arrows")],
  ["return value of brancher / enum_sys"])

p("C03", "Polya counts equal the number of distinct colourings",
  "The predicted number of symmetrically distinct structures for a group, a composition and a number of displaced colours equals the true number of orbits of the group on the colourings of that composition (each displaced atom carrying one of six directions). Asking for the prediction must not depend on the order in which the group elements are listed.",
  ["inputs"], "all permutation groups with arrow action, all compositions, all numbers of displaced species",
  "Tests check a list of stored counts; correctness of the generating-function expansion is a statement about all cycle structures and exponents.",
  ["phenum/polyaburnside.py"],
  [("cycle-index polynomials and coefficient extraction", "phenum/polyaburnside.py:polya, Product, Sequence, Multinomial")],
  ["return value of polya"])

p("C04", "Every class of displaced colourings is enumerated exactly once",
  "When some atoms are displaced along one of the six axis directions, the full enumeration (superperiodic structures kept) returns exactly one structure from every class of displaced colourings under the simultaneous action of each symmetry on sites and directions; every structure has the requested number of atoms of every species and of displaced atoms of every species. The number returned equals the Polya prediction.",
  ["inputs"], "all supercells, compositions, displaced fractions, symmetry groups with their action on the directions",
  "A few stored arrow enumerations exist; the interplay of stabilizers, the arrow permutation and the species ordering is only sampled.",
  ["phenum/phonons.py", "phenum/tree.py"],
  [("arrow search under the stabilizer", "phenum/phonons.py:add_arrows"), ("displaced colours as extra colours", "phenum/phonons.py:arrow_concs, _col_sort, how_many_arrows"), ("stabilizer handed to the arrow search", "phenum/tree.py:_perm")],
  ["return value of enum_sys / brancher / add_arrows"])

p("C05", "The list of supercell shapes of a given size is exact",
  "For every cell size n the generated supercell matrices are exactly the integer lower-triangular Hermite normal forms of determinant n (positive diagonal, each off-diagonal entry at least 0 and smaller than the diagonal entry of its row), each listed once. Together they represent every superlattice of index n exactly once.",
  ["inputs"], "all cell sizes n >= 1", "Tests compare three sizes with stored lists.",
  ["phenum/HNFs.py"], [("divisor triples and off-diagonal loops", "phenum/HNFs.py:find_all_HNFs")], ["return value of find_all_HNFs"])

p("C06", "Symmetry-distinct supercells: complete and non-redundant",
  "For every parent lattice and basis, the reduced list of supercells of size n holds only valid Hermite normal forms of that size, no two of which are turned into each other by a symmetry of the parent crystal, and every superlattice of index n is equivalent to one in the list. The caller's lattice stays as given.",
  ["inputs"], "all lattices (any symmetry), all bases, all sizes",
  "Tests use fcc, sc and one hexagonal-like case; equivalence is under the space group of an arbitrary crystal.",
  ["phenum/HNFs.py", "phenum/symmetry.py"], [("removal of rotated duplicates", "phenum/HNFs.py:get_HNFs"), ("space group", "phenum/symmetry.py:get_spaceGroup")], ["return value of get_HNFs"])

p("C07", "Smith normal form factorisation is exact",
  "For every integer 3x3 matrix with positive determinant the Smith decomposition returns integer matrices with left*H*right = M, left and right of determinant +1 or -1, and M diagonal with positive entries each dividing the next. Matrices that are not integer or not of positive determinant are refused with an error rather than decomposed.",
  ["inputs"], "all integer 3x3 matrices", "Ten stored matrices; termination and divisibility of the pivoting loop are claims about all integer matrices.",
  ["phenum/grouptheory.py"], [("pivoting loop", "phenum/grouptheory.py:SmithNormalForm")], ["return value of SmithNormalForm"],
  [("A, M, B", "left transform, working matrix, right transform", "phenum/grouptheory.py:SmithNormalForm")])

p("C08", "The supercell symmetry group on the sites is exact",
  "For every parent lattice, basis and supercell, the set of site permutations used to compare structures is exactly the set of permutations induced on the sites of the supercell by those symmetries of the parent crystal that preserve the superlattice, combined with all lattice translations; in particular it is a group, and the translations come first and number exactly the cell size. No symmetry is missing and none is invented, and no crystal with valid input is refused.",
  ["inputs"], "all lattices, multi-atom bases and Hermite normal forms",
  "Tests compare stored permutation lists for a few shapes, two of them multi-atom; an incorrect action on the basis is not visible there.",
  ["phenum/grouptheory.py", "phenum/symmetry.py"],
  [("rotations fixing the superlattice", "phenum/grouptheory.py:_get_sym_ops / get_sym_group"), ("action on the basis", "phenum/grouptheory.py:_get_dvector_permutations"), ("action on interior points via SNF", "phenum/grouptheory.py:_get_rotation_perms_lists")],
  ["get_sym_group(...).perm.site_perm"])

p("C09", "Displacement directions rotate with the sites",
  "Each symmetry operation of a supercell carries the permutation of the six directions (+x, -x, +y, -y, +z, -z) that its own rotation induces: a site permutation paired with a direction permutation always comes from one and the same crystal symmetry, and every such pair is listed. Translations leave all directions unchanged and opposite directions stay opposite.",
  ["inputs"], "all supercells of lattices whose symmetries map coordinate axes to coordinate axes",
  "Only a few stored groups with arrows are compared.", ["phenum/grouptheory.py"],
  [("arrow action of the rotation", "phenum/grouptheory.py:_get_rotation_perms_lists"), ("pairing", "phenum/grouptheory.py:get_sym_group")], ["get_sym_group(...).perm.arrow_perm"])

p("C10", "Point group and space group of the parent crystal are exact",
  "For every lattice the point group found is exactly the set of orthogonal matrices mapping the lattice to itself; for every crystal (lattice, typed basis) the space group found consists of exactly the rotation-translation pairs, one per coset of the lattice translations, that map the crystal to itself with atom types preserved. Both are groups and contain the identity. For a surface whose normal is the first vector, the operations kept are exactly those that map the normal to plus or minus itself.",
  ["inputs"], "all lattices of all Bravais types, all typed bases",
  "Tests compare stored groups of a few cubic and one hexagonal crystal.", ["phenum/symmetry.py"],
  [("candidate vectors by length and angle", "phenum/symmetry.py:get_lattice_pointGroup"), ("fractional shifts", "phenum/symmetry.py:get_spaceGroup, _does_mapping_exist, bring_into_cell"), ("surface operations", "phenum/grouptheory.py:_rm_3D_operations")],
  ["get_lattice_pointGroup", "get_spaceGroup"])

p("C11", "Allowed compositions of a cell size are exactly those in range",
  "For a cell size, number of species and basis size, the list of compositions holds exactly once every vector of non-negative species counts adding up to the number of sites and, when concentrations are restricted, with every species' fraction inside its stated closed interval. No allowed composition is missing or repeated.",
  ["inputs"], "all sizes, species numbers, basis sizes and rational concentration windows",
  "Five stored examples; rounding of fractions at the ends of the interval is not sampled.", ["phenum/symmetry.py"],
  [("composition loop", "phenum/symmetry.py:get_concs_for_size, _cartesian product")], ["return value of get_concs_for_size"])

p("C12", "A requested random sample is the right number of distinct structures",
  "When fewer structures than exist are requested (superperiodic structures kept), the enumeration returns exactly the requested number of structures for every seed, all of the requested composition and displaced counts and pairwise inequivalent under the symmetry group, and it terminates; when at least as many as exist are requested it returns them all. When superperiodic structures are excluded, none is returned and never more structures than requested.",
  ["inputs", "histories"], "all supercells, compositions, displaced counts, requested numbers and random seeds, including the direct-sampling route for large cells",
  "Random paths are tested with a single seed each and mostly by length; several paths are marked as untestable in the source.", ["phenum/phonons.py", "phenum/tree.py"],
  [("choice of subset and route", "phenum/phonons.py:enum_sys"), ("subset in the tree", "phenum/tree.py:brancher"), ("direct sampling", "phenum/tree.py:guess_and_check_brancher, phenum/phonons.py:add_arrows")], ["return value of enum_sys"])

p("C13", "A distribution hands out the requested total within the available numbers",
  "A distribution by size, shape, composition or all hands out exactly the requested number of structures - everything, every entry with its full count, when all (or more than all) are requested. It names only sizes, shapes and compositions present in the selected Polya tables, each once, and no entry receives more structures than the tables predict for it. An abundant entry is not starved: when the proportional shares of it and of every entry at least as abundant (to one part in 10^12) fit into the request, it receives at least its share rounded down. Asking twice with the same seed gives the same result.",
  ["inputs", "histories"], "all Polya tables, requested numbers, granularities and random draws",
  "Tests compare a few outcomes for fixed seeds; the rounding draws and top-up rounds form a state space of outcomes never enumerated.", ["phenum/structures.py"],
  [("weights", "phenum/structures.py:_distribution"), ("random rounding and top-up rounds", "phenum/structures.py:_distribute.assign/vinsert")], ["return value of _distribute", "file written by make_enum_in"],
  [("result, rtotal", "what has been handed out", "phenum/structures.py:_distribute")])

p("C14", "Size, shape and composition filters select exactly the listed cells",
  "The summary built from the Polya tables reports, for the requested sizes, every shape and composition with its predicted number, and its totals per composition, per shape and overall are the sums of the selected entries of the tables. A shape filter keeps exactly the listed shapes and a composition filter exactly the listed compositions.",
  ["inputs", "configurations"], "all Polya tables, selected sizes and filters", "A few stored tables and one filter of each kind are compared.", ["phenum/structures.py"],
  [("table reading and filtering", "phenum/structures.py:_distribution_summary"), ("filter file", "phenum/structures.py:make_enum_in")], ["_distribution_summary", "make_enum_in output"])

p("C15", "Polya tables list every shape and composition with the right count",
  "The Polya tables written for an input file contain one file per requested size, one row per symmetry-distinct supercell and one column per allowed composition, each entry being the number of symmetrically distinct (displaced) colourings; row, column and grand totals are the sums of the entries. Nothing is written for sizes that were not requested.",
  ["inputs", "configurations"], "all input files: lattices, bases, species, sizes, concentration and displacement restrictions",
  "A few stored output files are compared byte by byte.", ["phenum/enumeration.py", "phenum/polyaburnside.py", "phenum/HNFs.py"],
  [("table writer", "phenum/enumeration.py:_polya_out")], ["polya.out.<size> files"])

p("C16", "The structure file records exactly the enumerated structures",
  "The structure file written by an enumeration contains, for every entry of the request file, the structures enumerated for that supercell and composition and nothing else: consecutively numbered, ordered by cell size, each with its size, its supercell matrix, a Smith form and left transform belonging to that matrix, its labelling and its displacement directions. Reading the file back gives the same lattice, basis, and structure data that were written.",
  ["inputs"], "all request files and input files; all structures in the file",
  "The tests compare a few stored files; several fields are never compared for multi-size, multi-basis or displaced runs.", ["phenum/enumeration.py", "phenum/io_utils.py"],
  [("writer", "phenum/enumeration.py:_enum_out, phenum/io_utils.py:write_enum, create_labeling"), ("reader", "phenum/io_utils.py:read_enum_out")], ["enum.out file", "read_enum_out"])

p("C17", "Commands produce the right files from any starting point",
  "Whatever files are already present, the polya, distribution and enum commands each either fail without side effects on missing or invalid input or leave exactly their documented outputs: enum creates the missing tables and request file and then the structure file, distribution creates missing tables and the request file, and polya rewrites the tables. Existing request files and tables are used as they are and not modified, and a repeated command gives the same result.",
  ["histories", "configurations"], "all sequences of commands over all combinations of already existing files and options",
  "Each test runs one command in one prepared folder; the product of file states and option combinations is not covered.", ["phenum/enumeration.py", "phenum/structures.py"],
  [("command dispatch and defaults", "phenum/enumeration.py:_script_enum"), ("implied steps", "phenum/enumeration.py:_enum_out, _enum_in")], ["files in the working folder"],
  [("files", "which of lattice.in, polya.out.*, enum.in, enum.out exist and what they were derived from", "working folder")])

p("C18", "Structures are placed in real space site by site",
  "For every supercell the real-space form of a structure has exactly size times basis-count atoms, at pairwise distinct positions modulo the superlattice, one for every parent-lattice site in the cell; every atom is linked to the label position of its own site under the numbering used by the symmetry group. The returned supercell vectors span the superlattice given by the supercell matrix, reduced or not.",
  ["inputs"], "all lattices, bases, supercell matrices, labellings, with and without reduction",
  "Stored positions for about a dozen structures.", ["phenum/vector_utils.py", "phenum/phenumStr.py"],
  [("site loop and index", "phenum/vector_utils.py:map_enumStr_to_real_space")], ["map_enumStr_to_real_space"])

p("C19", "Basis reduction keeps the lattice and yields a shortest basis",
  "Reducing three (or two) linearly independent vectors returns vectors that span exactly the same lattice and satisfy the Minkowski conditions, so that the first is a shortest lattice vector and no integer combination with the earlier ones shortens a later one. The reduction terminates for every non-degenerate basis.",
  ["inputs"], "all non-degenerate bases", "Ten stored reductions.", ["phenum/vector_utils.py"],
  [("reduction loop", "phenum/vector_utils.py:_minkowski_reduce_basis, _reduce_C_in_ABC, _gaussian_reduce_two_vectors")], ["_minkowski_reduce_basis", "map_enumStr_to_real_space"])

p("C20", "Wrapping and change of coordinates preserve positions modulo the cell",
  "Converting Cartesian positions into direct coordinates of a cell, and folding a point into a cell, give coordinates that describe the same point modulo cell vectors and lie in the half-open unit cell (within the tolerance). Points that are equal modulo the cell are folded to the same point.",
  ["inputs"], "all cells and positions, including points on cell faces and far away", "A few stored points.", ["phenum/vector_utils.py", "phenum/symmetry.py"],
  [("fold", "phenum/vector_utils.py:cartesian2direct"), ("fold", "phenum/symmetry.py:bring_into_cell")], ["cartesian2direct", "bring_into_cell"])

p("C21", "POSCAR files describe exactly the enumerated structure",
  "The POSCAR written for a structure states the supercell vectors, the species counts, and one direct-coordinate line per atom grouped by species in the same order as the counts, such that the set of (position, species) pairs is that of the structure in the structure file. Displaced atoms, and only those, are moved by the requested amount along their own direction, and random rattling changes the length of a displacement by at most the requested fraction.",
  ["inputs", "configurations"], "all structure files, displacement and rattle amounts, species lists and reduction options", "Stored POSCARs with zero displacement.", ["phenum/io_utils.py", "phenum/phenumStr.py"],
  [("writer", "phenum/io_utils.py:write_POSCAR")], ["vasp.* files"])

p("C22", "MTP configuration files describe exactly the enumerated structures",
  "Each configuration block written for a structure states its number of atoms, its supercell vectors scaled by the lattice parameter, and one line per atom with a running id, its (mapped) species number and its Cartesian position, such that the set of (position, species) pairs is that of the structure; blocks of several structures are appended in order. Atoms without a displacement direction are not moved, and displaced atoms move by the requested amount along their own direction.",
  ["inputs", "configurations"], "all structure files, species mappings, displacement amounts", "One stored configuration file with zero displacement.", ["phenum/io_utils.py"],
  [("writer", "phenum/io_utils.py:write_config")], ["config file"])

p("C23", "makeStr writes exactly the selected structures",
  "Selecting one structure number, a first and last number, or all writes one output per selected structure that exists in the structure file, named by its structure number, and nothing for the others; any other selection is refused with an error before anything is written. Structure options keep their documented meaning (reduction, removal of zero counts, species names, output name pattern).",
  ["inputs", "configurations", "histories"], "all structure files, selections and option combinations", "About ten runs with stored files.", ["phenum/phenumStr.py", "phenum/io_utils.py"],
  [("selection", "phenum/phenumStr.py:run, phenum/io_utils.py:read_enum_out")], ["files written"])

p("C24", "Numbering of labellings and displacement patterns is a bijection",
  "The numbers assigned to colour arrangements and to displacement patterns are one-to-one: every number in range decodes to a distinct arrangement with the right number of atoms of each colour, encoding undoes decoding, and the ranges are the exact binomial and power counts. Binomial and multinomial coefficients and factorials used for this are exact for every size.",
  ["inputs"], "all numbers of sites, colours, and displaced atoms", "A handful of stored values.", ["phenum/tree.py", "phenum/phonons.py", "phenum/numerics.py"],
  [("colour numbering", "phenum/tree.py:_hash, _invhash, _coefficients"), ("arrow numbering", "phenum/phonons.py:_ahash, _ainvhash"), ("counts", "phenum/numerics.py")], ["return values"])

p("C25", "A whole enumeration finds every derivative structure once",
  "Running the enumeration of all structures for an input file gives, over all sizes requested together, exactly one structure for every class of colourings of the infinite parent crystal with that number of cells in the primitive repeat unit, where two colourings are in one class when a symmetry of the parent crystal maps one onto the other. No structure appears twice under different supercell shapes or sizes and none is missing.",
  ["inputs", "configurations"], "all parent crystals, species numbers, size ranges and concentration windows", "Total counts for a few lattices are compared with stored files; cross-shape and cross-size duplicates are not looked for.", ["phenum/enumeration.py", "phenum/HNFs.py", "phenum/phonons.py", "phenum/tree.py", "phenum/grouptheory.py"],
  [("pipeline", "phenum/enumeration.py:_enum_out")], ["enum.out file"])

p("C26", "Results do not depend on earlier calls, and inputs are left unchanged",
  "Calling any enumeration function twice with the same arguments (and seed) gives the same result, whatever other calls were made in between, and does not change the lattices, bases, groups, composition or label lists passed in. A run of the command with the same seed gives the same structure file apart from the date line.",
  ["histories", "inputs"], "all sequences of calls over all library entry points", "Every test calls a function once with fresh arguments.", ["phenum/HNFs.py", "phenum/grouptheory.py", "phenum/symmetry.py", "phenum/polyaburnside.py", "phenum/tree.py", "phenum/phonons.py", "phenum/structures.py", "phenum/vector_utils.py"],
  [("defensive copies", "phenum/grouptheory.py:get_sym_group, phenum/symmetry.py:get_spaceGroup, phenum/polyaburnside.py:polya"), ("seeding", "phenum/enumeration.py:_enum_out, phenum/structures.py:_distribute")], ["arguments before and after each call", "return values"])

p("C27", "Input and request files mean what they say",
  "Reading an input file yields exactly the stated sizes, lattice and basis vectors, species number, concentration windows and displacement fractions, independent of comment lines and spacing within a line; the enum.x input written from these parameters states the same crystal. Reading a request file yields every line's supercell, composition and number; reading a group file yields the listed permutations counted from zero.",
  ["inputs"], "all well-formed lattice.in, enum.in and group files", "A few sample files.", ["phenum/io_utils.py"],
  [("parsers", "phenum/io_utils.py:read_lattice, read_enum, read_group"), ("writer", "phenum/io_utils.py:write_struct_enum")], ["return values", "struct_enum.in"])

p("C28", "The lattice parameter follows the concentration-weighted volume rule",
  "When species are named, the lattice parameter of a structure is the concentration-weighted average of the elements' lattice parameters for the parent cell, so it lies between the smallest and largest of the elements present, depends only on the ratio of the counts and not on the order of the species, and equals the elemental value for a pure cell; without species it is 1. Unknown elements and a wrong number of species are refused.",
  ["inputs"], "all species lists, compositions and parent cells", "A few alloys are compared.", ["phenum/element_data.py"],
  [("Vegard's law", "phenum/element_data.py:get_lattice_parameter")], ["return value"])

p("C29", "Messages obey the verbosity and quiet settings",
  "At every point of any sequence of verbosity and quiet changes, a message is printed exactly when the settings in force allow its level: ordinary messages unless quiet, more detailed ones only up to the verbosity, errors always unless verbosity suppresses them as documented. Printing never changes the settings.",
  ["histories"], "all sequences of setting changes and messages of all kinds and levels", "The printing functions are called once under default settings.", ["phenum/msg.py"],
  [("gate", "phenum/msg.py:will_print, warn, err, info, okay, gen, blank, std")], ["stdout"],
  [("verbosity, quiet", "global settings", "phenum/msg.py")])

p("C30", "Closing generators gives exactly the generated group",
  "Expanding a list of generating permutations (with or without direction permutations) gives every element of the group they generate exactly once, including the identity, and nothing else, independent of the order and repetition of generators.",
  ["inputs"], "all lists of generators", "Three small stored groups.", ["phenum/grouptheory.py", "phenum/polyaburnside.py"],
  [("closure loops", "phenum/grouptheory.py:a_group, a_group_gen, _group; phenum/polyaburnside.py:group")], ["return values"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
