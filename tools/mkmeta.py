#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below, so that the
two cannot drift apart.  (Run by hand; both results are committed.)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "hyperstatic/core/"
M = C + "fe_model/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, note=note, state=state))


prop("P01", "Coordinate systems stay orthonormal, right-handed and follow their rules",
     "A local Cartesian system built from an origin and two points, or aligned with a normal, has orthonormal right-handed axes with the first axis through the first point and the second point in the half plane of the second axis. Any later sequence of realignments and rotations keeps the axes orthonormal and equals the composition of the individual rotations. Three collinear or coincident points are rejected.",
     ["inputs", "histories"], "all non-degenerate point triples and normals; all sequences of realignment, alignment and rotation operations",
     "the tests build two or three axis-aligned systems; orthonormality and composition must hold for every direction and every history",
     ["hyperstatic/common/csys.py"], [("construction and rotation of the axes", "hyperstatic/common/csys.py")],
     ["transform matrix of the coordinate system"],
     "random point triples, normals and operation histories against an independently composed rotation")
prop("P02", "Member axes and transformation follow the member's geometry and rotation",
     "The first local axis of a member points from its start to its end, the second lies in the vertical plane through the member and points up (along global X for vertical members), and the axes are orthonormal and right-handed for every member direction. Setting a rotation turns the two transverse axes about the member by exactly that angle and replaces any earlier setting. The element matrices seen globally are the local ones expressed in those axes.",
     ["inputs", "histories"], "all member directions (also vertical and nearly vertical), all sequences of rotation settings",
     "the tests use members along global axes; special directions and repeated settings are not reached",
     [M + "element/line/__init__.py", M + "element/line/beam.py", M + "model.py", "hyperstatic/common/csys.py"],
     [("local axes of a member", M + "element/line/__init__.py"), ("rotation setting", M + "model.py")],
     ["transform matrix of a beam", "assembled stiffness"],
     "generated member directions and rotation histories against a closed-form rotation")
prop("P03", "Beam stiffness is the exact Euler-Bernoulli stiffness of the member",
     "The stiffness of a member equals the closed-form Euler-Bernoulli stiffness for its modulus, section and length. It is symmetric, positive semi-definite with exactly the six rigid motions as energy-free motions, and depends on nothing but the member's own data.",
     ["inputs"], "all lengths, materials and section properties",
     "the tests compare a single beam's deflection; the twelve by twelve matrix must be right for every property set",
     [M + "element/line/beam.py", M + "element/line/simple_beam.py", M + "section/beam_section.py"],
     [("closed-form element stiffness", M + "element/line/beam.py")], ["beam stiffness matrix"],
     "generated properties against a reference matrix derived from the shape functions, plus rigid-motion invariants")
prop("P04", "Member and nodal masses are complete and consistently placed",
     "The consistent mass of a member is symmetric, positive, and yields the exact kinetic energy of every rigid translation and of the shape functions; the lumped mass carries half the member mass at either end. The mass of the structure is the sum of the masses of its members and of its nodes, at the DOFs of the nodes it was given to.",
     ["inputs"], "all members, lengths, densities and nodal masses, whole structures",
     "no test checks masses beyond one eigenvalue; total mass and placement are universal statements",
     [M + "element/line/beam.py", M + "element/line/simple_beam.py", M + "assembly.py"],
     [("element mass", M + "element/line/beam.py"), ("mass assembly", M + "assembly.py")], ["mass matrices"],
     "generated members and frames against numerically integrated and summed masses")
prop("P05", "Beam interpolation reproduces end motions and rigid motions",
     "The displacement interpolated inside a member equals the cubic (transverse) and linear (axial, torsional) field through the end displacements and rotations, at every location. At both ends it equals the end values, and rigid motions are reproduced exactly.",
     ["inputs"], "all lengths, end displacements and locations",
     "the tests never evaluate the shape functions off the ends",
     [M + "element/line/beam.py", C + "fe_post/beam.py"], [("shape functions", M + "element/line/beam.py")], ["interpolated displacement"],
     "generated end displacements and locations against an independent Hermite evaluation")
prop("P06", "Section and material properties match the geometry and elasticity laws",
     "Areas, second moments, torsion constants, section moduli and radii of gyration of every parametric section match those of the shape it describes, and scale with the right power of its size. Material constants and stresses satisfy the relations of isotropic elasticity, and a member with that section and material uses exactly these values.",
     ["inputs"], "all dimensions of rectangles, I, box, pipe and circular sections; all moduli, Poisson's ratios and densities",
     "the tests use one or two sizes per shape and compare with literals",
     [M + "section/beam_section.py", M + "material/__init__.py", M + "material/isotropy.py"],
     [("section formulas", M + "section/beam_section.py"), ("elastic constants", M + "material/isotropy.py")], ["section and material attributes", "beam stiffness"],
     "generated shapes against exact polygon/ring integrals and a torsion series; scaling relations")
prop("P07", "Member loads are replaced by statically and energetically equivalent end forces",
     "The end forces that stand for a distributed or concentrated member load do the same work as the load on every displacement the member's interpolation can take. In particular they have the same resultant force and moment, are mirrored when the member and load are mirrored, and are additive in the load.",
     ["inputs"], "all lengths, all linearly varying loads in the six components, all concentrated loads at any position",
     "the tests load beams uniformly in one direction; the equivalence must hold for each component, gradient and position",
     [M + "element/line/beam.py", M + "load/pattern.py"], [("equivalent end forces", M + "load/pattern.py")], ["equivalent end force vector"],
     "generated loads against Gauss integration of load times shape functions, plus statics and mirror relations")
prop("P08", "Load cases combine their patterns linearly, at each instant",
     "The loads and imposed displacements a case applies to a node or member are the sum over its patterns of factor times pattern value, whatever the order and number of changes to patterns and factors. In a time history each pattern is multiplied by its own curve, zero after the curve's end.",
     ["inputs", "histories"], "all sets of patterns, factors, curves and sequences of redefinitions",
     "the tests use one pattern with factor one",
     [M + "load/__init__.py", M + "load/loadcase.py", M + "load/pattern.py"], [("combination of patterns", M + "load/loadcase.py")], ["load dictionaries and vectors of a case"],
     "generated definition histories against a dictionary model of the case")
prop("P09", "Global assembly sums every member and load once, at the right DOFs",
     "The assembled stiffness is the sum of the members' global stiffnesses and the assembled load is the sum of nodal loads and equivalent member forces, each at the DOFs of its own nodes, for any connectivity including parallel members. Applying restraints removes exactly the restrained DOFs and leaves the rest unchanged.",
     ["inputs", "programs"], "all connectivities, node orders, releases, loads, restraints and orders in which restraints are entered",
     "the tests assemble structures of one or two members",
     [M + "assembly.py", M + "model.py"], [("assembly of stiffness and loads", M + "assembly.py"), ("removal of restrained DOFs", M + "assembly.py")], ["assembled matrices and vectors"],
     "generated frames against a dense reference assembly")
prop("P10", "Static analysis returns the exact displacements of any stable frame",
     "For every stable frame the computed displacements solve the equilibrium equations of the Euler-Bernoulli frame under the given loads and supports. Restrained DOFs do not move, and looking up a node gives the values of that node, through the library and the façade alike.",
     ["inputs", "programs"], "all frames up to seven joints with loops, releases, rotated members, partial supports and all kinds of loads",
     "the tests solve a handful of cantilevers and simple beams with axis-aligned members",
     [C + "fe_solver/static.py", M + "assembly.py", C + "fe_post/node.py", C + "__init__.py"],
     [("linear solve", C + "fe_solver/static.py"), ("scatter of the free DOFs", M + "assembly.py"), ("result lookup", C + "fe_post/__init__.py")],
     ["saved displacements", "nodal displacement queries", "façade results"],
     "generated frames against an independent dense frame solver; badly conditioned frames are discarded")
prop("P11", "Reactions balance the loads",
     "The reported reactions, together with the applied loads, satisfy force and moment equilibrium of the whole structure. A reaction appears only at restrained DOFs and equals the resistance of the structure there, in a static case as at every instant of an undamped time history.",
     ["inputs", "programs"], "all frames, supports and loads",
     "reactions are not tested beyond one beam; equilibrium must hold for each structure",
     [C + "fe_post/node.py", M + "assembly.py"], [("reaction recovery", C + "fe_post/node.py")], ["nodal reaction queries"],
     "generated frames; global force and moment balance and an independent reaction")
prop("P12", "Static results are linear in the loads and reciprocal",
     "The result of a combination of patterns is the same combination of the individual results, for displacements, reactions and member forces. The displacement at one DOF due to a unit load at another equals that at the other due to a unit load at the first.",
     ["inputs", "programs"], "all frames, pairs of load patterns, factors and DOF pairs",
     "tests run one load case at a time",
     [C + "fe_solver/static.py", M + "load/loadcase.py"], [("linear solve", C + "fe_solver/static.py")], ["displacements, reactions and end forces"],
     "metamorphic relations over generated frames")
prop("P13", "Results do not depend on names, definition order or member direction",
     "Renaming nodes, members and patterns or defining them in any other order leaves every result attached to the same physical object unchanged. Reversing a member's direction, with its loads expressed accordingly, changes only the signs and order of that member's own results.",
     ["inputs", "programs"], "all frames, permutations of definition order, names and member reversals",
     "tests build models in one order with one naming scheme",
     [M + "model.py", M + "assembly.py", C + "fe_post/__init__.py"], [("indexing of nodes and members", M + "model.py")], ["nodal and member results"],
     "metamorphic relations over generated frames")
prop("P14", "Results turn and move with the structure",
     "Moving and rotating a structure together with its supports and loads moves and rotates its displacements and leaves member end forces unchanged.",
     ["inputs", "programs"], "all frames, translations and rotations (quarter turns, about the vertical, arbitrary)",
     "tests use axis-aligned members in one position",
     [M + "element/line/__init__.py", M + "assembly.py"], [("member transformation", M + "element/line/__init__.py")], ["nodal displacements", "member end forces"],
     "metamorphic relation over generated frames")
prop("P15", "Restraints apply to the cases they belong to; supports never soften a structure",
     "A case with its own restraints uses those and no others, a case without uses the model's, whatever the number and order of cases solved. Adding restraints or members never increases the work of the loads.",
     ["inputs", "programs", "histories"], "all frames, sets of cases with and without own restraints, orders of solution",
     "tests have one case with model-wide restraints",
     [M + "assembly.py", M + "load/loadcase.py", C + "fe_solver/static.py"], [("boundary of a case", M + "assembly.py")], ["displacements per case"],
     "generated case sets against the reference solver; monotonicity relation")
prop("P16", "Released member ends transmit nothing and leave the rest exact",
     "A member with released end DOFs behaves as the member with those DOFs condensed out, for any admissible combination of releases and loads. Released end forces are zero and the structure around it moves accordingly.",
     ["inputs", "programs"], "all admissible combinations of the twelve releases, all members and loads, whole frames",
     "the tests release at most one pair of DOFs",
     [M + "element/line/beam.py", M + "element/line/__init__.py", M + "model.py"], [("condensation of released DOFs", M + "element/line/__init__.py")], ["condensed matrices", "displacements", "end forces"],
     "generated release sets against Schur complements and closed-form hinged members")
prop("P17", "Member end forces are those the loads and displacements cause",
     "The reported end forces of a member are its local stiffness times its end displacements minus the load equivalents, at every instant of a time history those of that instant. Each member is in equilibrium with its own loads, and the end forces of all members at a joint balance the load and reaction there.",
     ["inputs", "programs"], "all frames, releases, rotations and loads",
     "tests look at the end force of a single beam",
     [C + "fe_post/beam.py", M + "assembly.py"], [("end force recovery", C + "fe_post/beam.py")], ["member end force queries"],
     "generated frames against the reference solver and the two equilibrium relations")
prop("P18", "Deformation along a member matches the structure's motion",
     "The displacement reported at a location inside an unloaded member is the displacement a joint at that place would have. Both ends report the displacement of their nodes.",
     ["inputs", "programs"], "all frames, members and interior locations",
     "tests look at ends or mid-span of axis-aligned beams",
     [C + "fe_post/beam.py", M + "element/line/beam.py"], [("deformation recovery", C + "fe_post/beam.py")], ["member deformation queries"],
     "generated frames against the reference interpolation and against the same frame with a joint inserted")
prop("P19", "Subdividing a member does not change the answer",
     "Replacing a member by several consecutive members carrying the corresponding parts of its load leaves the displacements of all original joints and the reactions unchanged.",
     ["inputs", "programs"], "all frames, members, division points and member loads",
     "tests fix one mesh",
     [M + "load/pattern.py", M + "element/line/beam.py", M + "assembly.py"], [("equivalent end forces", M + "load/pattern.py"), ("member stiffness", M + "element/line/beam.py")], ["displacements"],
     "metamorphic relation over generated frames")
prop("P20", "Modal analysis returns the lowest modes of the structure",
     "The modes returned are the requested number of lowest eigenpairs of the structure's stiffness and mass under the case's restraints; each satisfies the eigenvalue equation and different modes are mass-orthogonal. Frequencies, angular frequencies and periods are consistent, and they scale with the root of stiffness over mass.",
     ["inputs", "programs"], "all supported frames, mass distributions, numbers of modes and restraints of the case",
     "the existing tests only run the solver on one beam or compare a few values",
     [C + "fe_solver/dynamic.py", M + "assembly.py", C + "fe_post/structure.py"], [("eigenvalue solver", C + "fe_solver/dynamic.py")], ["modal frequencies, saved modes, façade results"],
     "generated frames against a dense Cholesky-reduced eigenvalue problem; scaling relations")
prop("P21", "Direct time integration follows the equation of motion",
     "The history computed for a time history case is the central-difference solution of the equation of motion with the case's mass, damping, stiffness, restraints and time-varying load. It is linear in the load, and a single-DOF system under a suddenly applied load oscillates about the static answer as theory predicts.",
     ["inputs", "programs"], "all frames with mass at every free DOF, load curves, damping ratios and stable steps",
     "the existing tests run one history without an oracle",
     [C + "fe_solver/dynamic.py", M + "load/loadcase.py"], [("time stepping", C + "fe_solver/dynamic.py")], ["saved histories, displacement at a step"],
     "generated systems against an independent recurrence and the analytical step response")

# ---------------------------------------------------------------- more below
exec(open(os.path.join(HERE, "tools", "more.py"), encoding="utf-8").read())
# further files each property rests on
for k, fs in {"P01": [M + "node.py"], "P02": [M + "element/line/simple_beam.py"], "P04": [M + "node.py", M + "model.py"], "P05": [M + "element/line/simple_beam.py"],
              "P06": [M + "section/shell_section.py"], "P16": [M + "element/line/simple_beam.py", M + "assembly.py"], "P31": [M + "meta/interpolate/Lagrange.py"],
              "P17": [M + "element/line/simple_beam.py"], "P18": [M + "element/line/simple_beam.py"], "P28": [M + "load/__init__.py"], "P21": ["hyperstatic/common/curve.py", M + "load/__init__.py"]}.items():
    for q in P:
        if q["id"] == k:
            q["files"] = list(q["files"]) + [f for f in fs if f not in q["files"]]

# properties that are also decided through the façade, the way a program uses them
for q in P:
    if q["id"] in "P03 P04 P06 P07 P08 P09 P10 P11 P12 P13 P15 P16 P17 P18 P19 P22 P23".split():
        f = "hyperstatic/core/__init__.py"
        if f not in q["files"]:
            q["files"] = list(q["files"]) + [f]
        if "façade results" not in q["observe"]:
            q["observe"] = list(q["observe"]) + ["façade results"]

NA = globals().get("NOT_APPLICABLE", [])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
    skip = {x["property"] for x in NA}
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import compileall,sys; sys.exit(0)\"",
           "checks": [], "not_applicable": NA,
           "notes": "All checks are `check.py <ID>`; they read /repo's working tree, compile the element kernels they need into a private scratch folder, and take the seed from VERIF_SEED."}
    for p in P:
        if p["id"] in skip:
            continue
        man["checks"].append({
            "property": p["id"],
            "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % p["id"],
            "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "property-based testing (Hypothesis): " + p["note"],
            "level": "exploration",
            "level_note": "Holds on every generated case; nothing is proved outside the sampled domain. " + p["text"][0].upper() + p["text"][1:] + "."})
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
