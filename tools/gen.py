#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "src/Caribou/Geometry/"
PROPS = []
CHECKS = {}
NA = []


def prop(id, title, statement, over, quant, why, files, mech, observe=None, technique=None, note=None, level="proof", na=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
                  "why_tests_cant": why, "anchors": a})
    if na:
        NA.append({"property": id, "reason": na})
    else:
        CHECKS[id] = {"property": id, "quick_cmd": f"python3 check.py {id}", "thorough_cmd": f"python3 check.py {id} --thorough",
                      "technique": technique, "level": level, "level_note": note}


EL = [G + x for x in ("Segment.h", "Triangle.h", "Quad.h", "Tetrahedron.h", "Hexahedron.h", "RectangularQuad.h", "RectangularHexahedron.h")]
DF = "forward dataflow over LLVM IR compiled from /repo's current headers (abstract values: exact polynomials/gated terms over the inputs)"

prop("C01", "Shape functions are a nodal interpolation basis",
     "For every element type, the interpolation functions evaluated at any local point sum to one, and function i is one at reference node i and zero at every other reference node; every polynomial of the element's order (1 or 2) in the local coordinates is interpolated exactly from its values at the reference nodes. The functions depend on the local point only, and the default-constructed element has exactly the documented reference nodes.",
     ["inputs"], "every local point (real), every element type, interpolation order and world dimension",
     "Tests evaluate the functions at a few points per element and several element/dimension combinations are never instantiated.",
     EL, [("shape functions", G + "*.h get_L"), ("reference nodes", G + "*.h default constructors")], ["element.L(xi)", "element.nodes()"],
     DF + "; partition of unity, Kronecker delta and reproduction of the monomials of the element's order decided as polynomial identities",
     "Identities are decided for all real local points in exact arithmetic; rounding is outside the argument.")
prop("C02", "Shape function gradients are the exact derivatives",
     "For every element type, the gradient of each interpolation function reported at any local point is the exact partial derivative of the interpolation function with respect to each local coordinate.",
     ["inputs"], "every local point, every node and every local axis of every element type",
     "Tests compare a few sample points or only check that gradients sum to zero, which holds for many wrong gradients.",
     EL, [("shape function gradients", G + "*.h get_dL")], ["element.dL(xi)"],
     DF + "; gradient entries compared with the symbolic derivative of the analysed shape functions",
     "Polynomial identity for all local points; exact arithmetic.")
prop("C03", "Quadrature rules integrate the element's own polynomials exactly",
     "For every element type, the integration points lie inside the reference element, the weights are positive and sum to its measure, and the rule integrates exactly every monomial of the degree its order of interpolation calls for. The number of points reported equals the number of points held.",
     ["inputs", "configurations"], "every polynomial integrand of the required degree on every element type",
     "A test samples one integrand or one element; a wrong point or weight still yields plausible integrals.",
     EL, [("integration points and weights", G + "*.h get_gauss_nodes"), ("declared number of points", "traits<...>::NumberOfGaussNodesAtCompileTime")],
     ["element.gauss_nodes()", "element.number_of_gauss_nodes()"],
     DF + "; constant tables recovered from the analysed code, moments compared with the exact integrals of every monomial",
     "Decided on the exact values of the floating constants with tolerance 1e-9.")
prop("C04", "Boundary elements are the element's own facets, outward and conforming",
     "Each boundary facet of an element lists distinct nodes of the element forming the documented facet, the facet's own shape functions restricted from the element agree with the element's on that facet, every edge or face of the reference shape appears exactly once, and facets of solids are all ordered the same way round (outward).",
     ["inputs"], "every facet of every element type, every point of the facet",
     "Tests look at a couple of indices; an index swapped in one facet of one element type is invisible to them.",
     EL, [("boundary tables", G + "*.h get_boundary_elements_nodes / get_boundary_elements_node_indices"), ("facet construction", "element.boundary_elements / boundary_element(i)")],
     ["element.boundary_elements_node_indices()"],
     DF + "; facet tables recovered from the analysed code and composed with the analysed shape functions",
     "Polynomial identities on each facet.")
prop("C05", "Every way to construct an element gives the same element",
     "An element built from separate nodes, from a matrix of nodes, from a mapped or referenced matrix, or by copy holds exactly the given positions, and a quadratic element built from a linear one or from its corner nodes has its remaining nodes at the exact midpoints of the edges they belong to.",
     ["inputs"], "every node position, constructor, element type and world dimension",
     "The combinations of constructor, order and dimension are too many for the tests, several are never instantiated.",
     EL, [("constructors", G + "*.h"), ("node storage", "p_nodes")], ["element.nodes()", "element.node(i)"],
     DF + "; resulting node values compared with the constructor inputs",
     "All constructors instantiable for each element type; exact arithmetic.")
prop("C06", "World mapping, centre, jacobian and interpolation are mutually consistent",
     "For every element the world position of a local point is the shape-function combination of the node positions, the centre is the image of the reference barycentre, the jacobian is the exact derivative of the world mapping, and interpolating nodal values of any number of components uses the same combination. Nodes read one at a time equal nodes read together.",
     ["inputs"], "every node position, local point and nodal value; every element type",
     "Tests use a handful of (often axis-aligned) elements and points.",
     EL + [G + "Element.h", G + "BaseRectangularQuad.h", G + "BaseRectangularHexahedron.h"],
     [("interpolation", G + "Element.h interpolate/world_coordinates/jacobian"), ("rectangular nodes", "BaseRectangular*.h get_nodes"), ("centres", "Base*.h get_center")],
     ["element.world_coordinates", "element.jacobian", "element.center", "element.interpolate"],
     DF + "; polynomial identities between the outputs",
     "Exact arithmetic, all inputs.")
prop("C07", "World-to-local conversion performs the documented Newton iterations",
     "For any element mapping, starting point, tolerance and iteration limit, the local coordinates returned are the iterate at which the residual first falls below the tolerance times the initial residual, or the last allowed iterate, the least-squares step being used for surfaces and curves in a larger space. For affine elements of any size, one step recovers the exact local coordinates.",
     ["inputs"], "every mapping (uninterpreted), world point, starting point and tolerance; affine elements with arbitrary nodes",
     "Tests convert a few points of unit-size elements, where wrong stopping rules or scaling do not show.",
     [G + "Element.h"], [("Newton iterations", G + "Element.h local_coordinates")], ["element.local_coordinates"],
     DF + " with the element mapping as uninterpreted functions, bounded loop unrolled with gated joins; term equality with the documented recursion",
     "Iteration limits 1 to 3 (1, 2, 3, 5 in 1D) are analysed; the default overload in 1D. Convergence for curved elements is not claimed.")
prop("C08", "Containment of a local point is the reference element plus tolerance",
     "A local point is reported inside an element exactly when it lies in the closed reference element enlarged by the tolerance: every point of the element is inside, every point closer than the tolerance to it along each face normal axis is inside, and a point further out than the tolerance across any face is outside.",
     ["inputs"], "every local point and positive tolerance, every element type",
     "The acceptance region is a polytope whose faces and corners tests sample sparsely.",
     EL, [("containment test", G + "*.h get_contains_local")], ["element.contains_local"],
     DF + "; the returned condition as a boolean formula, inclusions decided by Fourier-Motzkin elimination",
     "All real local points and tolerances.")


def main():
    exec(open(os.path.join(V, "tools", "more_props.py")).read(), globals()) if os.path.exists(os.path.join(V, "tools", "more_props.py")) else None
    PROPS.sort(key=lambda p: p["id"])
    with open(V + "/properties.jsonl", "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q engine checks check.py",
         "checks": [CHECKS[k] for k in sorted(CHECKS)], "not_applicable": NA,
         "notes": "Every check compiles small client translation units against /repo's current sources to LLVM IR in a scratch folder and analyses that IR; nothing of caribou is executed."}
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    open(V + "/MANIFEST.json", "a").write("\n")


main()
