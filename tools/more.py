prop("P22", "Shell element matrices follow plate and membrane theory in any position",
     "The stiffness of a triangular or quadrilateral shell element is symmetric, has every rigid motion as an energy-free motion, and yields the exact energy of the constant strain and constant curvature states its theory covers. It follows the element's type (membrane, plate or shell), is its local matrix turned into the element's own plane, scales with modulus and thickness as theory says, and does not depend on which corner is listed first. The area is the area of the polygon.",
     ["inputs"], "all non-degenerate triangles and convex quadrilaterals in any plane, all isotropic materials, thicknesses and element types",
     "the tests assemble one or two elements in the XY plane",
     [M + "element/tria/__init__.py", M + "element/tria/DKT.py", M + "element/quad/__init__.py", M + "element/quad/DKGQ.py", M + "section/shell_section.py"],
     [("triangle matrices", M + "element/tria/DKT.py"), ("quadrilateral matrices", M + "element/quad/DKGQ.py")], ["element stiffness, transform matrix, area"],
     "generated element shapes, planes and corner orders against an independently derived element, patch energies and metamorphic relations")
prop("P23", "Structures with shells assemble and deform consistently",
     "The assembled stiffness of a structure with shells and members is the sum of all its elements at the DOFs of their own nodes, and its static solution satisfies equilibrium of exactly that stiffness. A patch of membrane or plate elements whose edge follows a constant strain or curvature state follows it inside as well.",
     ["inputs", "programs"], "all meshes of generated patches with mixed triangles, quadrilaterals and members, supports and loads, in any plane",
     "the tests solve one fixed plate; no mesh is ever distorted, rotated or mixed with members",
     [M + "assembly.py", M + "model.py", C + "fe_solver/static.py", M + "element/tria/DKT.py", M + "element/quad/DKGQ.py"],
     [("assembly of shells", M + "assembly.py")], ["assembled stiffness, saved displacements"],
     "generated meshes against a dense reference assembly and the patch test")
prop("P24", "What was defined is what is reported, after any history of definitions",
     "After any sequence of definitions and redefinitions, each object is reported with the attributes last given to it (restraints, releases, loads and masses left out of a call are none), the names reported are exactly those defined, and the internal numbering of nodes, members and shells stays a gap-free numbering without duplicates. A definition that refers to something undefined is refused with the documented return value and changes nothing. Values that were read can be altered without changing what was defined.",
     ["histories"], "all sequences of façade and model definitions, redefinitions, references to undefined names and queries",
     "tests define objects once, in one order, with valid references",
     [C + "__init__.py", M + "model.py", M + "load/pattern.py", M + "load/loadcase.py"],
     [("registries and façade", M + "model.py")], ["façade queries and return values, model registries"],
     "stateful generation of definition histories against a dictionary model")
prop("P25", "Saving and loading keep a model, its loads and its results",
     "A façade that is saved and loaded again reports every definition, gives every result it gave before and can be edited, assembled and solved on like the original. Saved files are independent copies: later edits of the live model, other saves and moving the folder do not reach them, a façade loaded from a moved or copied folder works there, and a file that does not exist yields None. An assembly saved to disk yields the same displacements, reactions and end forces whenever and wherever it is solved.",
     ["histories"], "all sequences of definitions, solutions, saves to several names, loads and further edits",
     "no test saves or loads anything but as a side effect of one solve",
     [C + "__init__.py", M + "assembly.py", "hyperstatic/core/fe_post/__init__.py", C + "fe_solver/__init__.py"],
     [("façade files", C + "__init__.py"), ("assembly files", M + "assembly.py")], ["façade queries and results after loading", "results read from saved assemblies"],
     "stateful generation of save/load/edit histories against a dictionary model and a reference frame solver")
prop("P26", "Results belong to the definitions at the last assembly, whatever happened before",
     "After any history of definitions, edits, assemblies, solutions and queries, the displacements, reactions and end forces of a solved case are those of the structure and loads as they were defined when it was last assembled. Cases, repeated solutions, repeated queries and other models open at the same time do not influence each other, and the same computation gives the same answer again.",
     ["histories"], "all interleavings of definition, edit, assemble, solve, modal solve and query operations on one or two façades",
     "every test assembles and solves a fresh model once",
     [C + "__init__.py", M + "assembly.py", M + "model.py", C + "fe_solver/static.py", "hyperstatic/core/fe_post/__init__.py"],
     [("assemble, solve and query", C + "__init__.py")], ["façade results after each operation"],
     "stateful generation of façade sessions against an independent frame solver replaying the definitions")
prop("P27", "Duplicate detection finds exactly the nodes and members that coincide",
     "With duplicate detection on, adding a node where there is one (within the absolute tolerance), or a member between two places that a member already joins in either direction, changes nothing and returns the index of one that is there. Otherwise, and with detection off, the object is added or redefined with its own index. The tolerance set last is the one that counts.",
     ["inputs", "histories"], "all sequences of node and member definitions at coinciding, nearly coinciding and distinct places, with and without detection, for any tolerance",
     "the tests never use coinciding places and never change the tolerance",
     [M + "model.py", "hyperstatic/common/tolerance.py", M + "node.py"], [("duplicate detection", M + "model.py"), ("tolerance", "hyperstatic/common/tolerance.py")],
     ["returned indices, names, locations, counts"],
     "generated histories of coinciding definitions against a geometric model of what is where")
prop("P28", "Load curves have the points they were asked for, and cases follow them",
     "A harmonic curve has exactly the number of points asked for, at multiples of the time step, with the ordinates of the sine or cosine described; a given curve keeps the points given. The loads of a time history case at each step are the sum of its patterns, each times its factor and its own curve's ordinate, and curves that have ended contribute nothing.",
     ["inputs"], "all amplitudes, frequencies, phases, time steps and numbers of points; all combinations of curves, factors and patterns",
     "the tests use no curve at all",
     ["hyperstatic/common/curve.py", M + "load/loadcase.py"], [("curves", "hyperstatic/common/curve.py"), ("time history cases", M + "load/loadcase.py")],
     ["curve arrays, nodal loads over time"], "generated curves and cases against closed-form ordinates")
prop("P29", "The design spectrum is the one of the seismic code",
     "The seismic influence coefficient over the period is the one given by GB 50011 for its peak value, characteristic period and damping ratio, on all four branches. It is proportional to the peak value, does not rise beyond the characteristic period, and both spectrum implementations agree.",
     ["inputs"], "all peak values, characteristic periods and damping ratios in and around the range of the code",
     "no test evaluates the spectrum",
     ["hyperstatic/app/design/GB/seismic/spectrum.py", "hyperstatic/app/seismic/wave2spec.py"],
     [("spectrum branches", "hyperstatic/app/design/GB/seismic/spectrum.py")], ["spectrum ordinates"],
     "generated parameters against an independent transcription of the clause, plus metamorphic relations")
prop("P30", "Response spectra of a record are the peaks of the oscillator's response",
     "The response of a damped oscillator to a record is the Duhamel integral over the earlier part of the record: linear, causal and delayed with it. The spectrum gives for each period the largest absolute displacement, pseudo velocity and pseudo acceleration (in g) of the record scaled to the design peak, so that the record's own size and sign are immaterial.",
     ["inputs"], "all records, frequencies, damping ratios below 0.6, time steps and design peaks",
     "no test evaluates a response spectrum",
     ["hyperstatic/app/seismic/wave2spec.py"], [("Duhamel integral and spectrum", "hyperstatic/app/seismic/wave2spec.py")],
     ["response and spectrum arrays"], "generated records against the convolution sum, superposition, delay and scaling relations")
prop("P31", "Symbolic building blocks are exact",
     "The Hermite and Lagrange functions reproduce every (bi)cubic and (bi)linear polynomial from its nodal values and slopes, the Jacobian is the derivative of the mapping, and the strain operators give the strains of every displacement field. The elasticity tensor and the stresses belong to the same isotropic law.",
     ["inputs"], "all polynomials of the order, evaluation points, corner positions, displacement fields, strains and elastic constants",
     "no test evaluates them",
     [M + "meta/interpolate/Hermite.py", M + "meta/jacobi.py", M + "meta/operator.py", M + "meta/isotropy.py"],
     [("interpolation", M + "meta/interpolate/Hermite.py"), ("operators", M + "meta/operator.py"), ("elasticity", M + "meta/isotropy.py")],
     ["values of the symbolic expressions"], "generated polynomials, fields and strains against derivatives and Hooke's law written out by hand")
