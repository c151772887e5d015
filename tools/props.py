#!/usr/bin/env python3
"""Writes properties.jsonl (one source of truth for the property texts)."""
import json, os
G, T = "src/Caribou/Geometry/", "src/Caribou/Topology/"
EL = [G + f for f in ("Element.h", "Segment.h", "BaseSegment.h", "Triangle.h", "BaseTriangle.h", "Quad.h", "BaseQuad.h", "RectangularQuad.h", "BaseRectangularQuad.h", "Tetrahedron.h", "BaseTetrahedron.h", "Hexahedron.h", "BaseHexahedron.h", "RectangularHexahedron.h", "BaseRectangularHexahedron.h")]
P = []


def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe, "hook_needed": None}})


p("C01", "Shape functions are the interpolation basis of every element type",
  "For each element type (segment, triangle, quad, rectangular quad, tetrahedron, hexahedron, rectangular hexahedron, linear and quadratic, in every supported dimension), shape function i is 1 at node i and 0 at every other node, the functions sum to one everywhere, and together they are the unique basis of the element's documented polynomial space on its documented node layout. Interpolating nodal values of any field in that space (scalar or vector valued) therefore returns the field itself at every local point, inside or outside the element.",
  ["inputs", "configurations"], "every element type and order, every local point, every nodal field",
  "The tests evaluate a handful of nodes and one polynomial per element; a wrong coefficient in one shape function of one quadratic element away from those points is not seen.",
  EL, [("L / interpolate", G + "Element.h and each element header")], ["L(xi)", "interpolate(xi, values)"])
p("C02", "Shape function derivatives and the jacobian are exact",
  "For each element type the reported shape function derivatives are the exact partial derivatives of its shape functions at every local point. The jacobian is the exact derivative of the local-to-world map at every local point, for every node configuration, and its shape is world dimension by canonical dimension.",
  ["inputs", "configurations"], "every element type, every local point, every node configuration",
  "The tests check that derivatives sum to zero or compare the jacobian on one configuration; they do not quantify over points and distorted elements.",
  EL, [("dL", "each element header"), ("jacobian", G + "Element.h; overridden by rectangular elements")], ["dL(xi)", "jacobian(xi)"])
p("C03", "World and local coordinates of an element are inverse of each other",
  "The world position of a local point is the interpolation of the node positions. Converting a world position of a point of the element back to local coordinates returns a local point whose world position is the given one (to solver tolerance), for every non-degenerate element that is an affine image or a mild distortion of its reference element, wherever the conversion starts from by default. For surface and line elements embedded in a higher dimension this holds for every point of the surface or line.",
  ["inputs", "configurations"], "every element type, every affine image / mildly distorted configuration, every point in and around the element",
  "Tests convert the centre or a couple of points of one element per type; convergence and correctness of the inversion over configurations is untested.",
  EL, [("world_coordinates / local_coordinates (Newton inversion or closed form)", G + "Element.h, BaseHexahedron.h, BaseQuad.h, BaseTetrahedron.h, BaseTriangle.h, BaseSegment.h, rectangular elements")], ["world_coordinates", "local_coordinates"])
p("C04", "Containment test accepts exactly the element's reference domain",
  "The local containment test of each element type answers yes for every local point of the closed reference domain (boundary included) and no for every point outside it by more than the given tolerance; a point outside by less than the tolerance is accepted. The default tolerance is small and positive.",
  ["inputs"], "every element type, every local point, every non-negative tolerance",
  "Tests try a few points; single faces or corners that are wrongly excluded (or a bound that is missing on one axis) are not seen.",
  EL, [("contains_local", "Base*.h of each element")], ["contains_local"])
p("C05", "Quadrature rules integrate polynomials exactly and report themselves fully",
  "For each element type the quadrature points lie in the reference domain, the weights sum to its measure, and the rule integrates every polynomial up to the rule's degree exactly (products of linear or quadratic fields as the element order requires). The number of quadrature points reported equals the number listed, and the weighted sum of jacobian determinants gives the exact measure of every affine image of the element.",
  ["inputs", "configurations"], "every element type, every polynomial up to the rule's degree, every affine configuration",
  "Tests integrate one polynomial per element; an asymmetric error in a single point or weight can cancel for it.",
  EL, [("gauss node tables", "each element header")], ["gauss_nodes()", "gauss_node(i)", "number_of_gauss_nodes()"])
p("C06", "Boundary elements, faces and edges tile the boundary of the element",
  "The faces and edges listed by an element refer to its own nodes, each geometric facet appears exactly once with all of its nodes in the node order of the facet's element type, and its orientation is consistent (outward for volume elements, counter-clockwise for 2D elements). The boundary element built from a facet has exactly those nodes and its points coincide with the corresponding points of the parent element, and boundary element queries answer with the facet's type and node count.",
  ["configurations", "inputs"], "every element type, every facet, every node configuration",
  "Tests check one facet or the number of facets; a permuted mid-edge node in one face is not seen.",
  EL, [("boundary_elements_node_indices, boundary_element(s), edges, faces", "each element header")], ["boundary_elements_node_indices()", "boundary_element(i)", "boundary_elements()", "number_of_boundary_elements()"])
p("C07", "All ways to construct an element agree; rectangular elements match general ones",
  "Every constructor given the same nodes produces the same element, a quadratic element built from its corner nodes has its mid-edge nodes at the middle of the edges, and the default element is the reference element. A rectangular element built from a center, size and rotation has the nodes, world map, inverse map, jacobian and measure of the general element on its node positions, and the frame extracted from a rectangular quad or from any tetrahedron or hexahedron is orthonormal, right handed and follows the element's rotation.",
  ["inputs", "configurations"], "every element type, constructor overload, node configuration, center, size and rotation",
  "Tests use one configuration per constructor; agreement over all overloads and rotations is not checked.",
  EL, [("constructors", "each element header"), ("frame(), center(), size(), rotation()", "Base*.h")], ["constructors", "nodes()", "node(i)", "center()", "frame()"])
p("C08", "Box/hexahedron intersection with segments and triangles is exact",
  "A rectangular or general (parallelepiped) linear hexahedron reports an intersection with every segment or triangle that shares a point with its interior, including those fully inside, crossing it, or enclosing it, and no intersection with any segment or triangle at a positive distance from it. The answer does not depend on the order of the segment's or triangle's nodes, nor on a rigid motion applied to both.",
  ["inputs", "configurations"], "every segment and triangle, every box size, position and rotation",
  "Tests try a few hand-picked segments and triangles per case of the algorithm.",
  [G + "BaseRectangularHexahedron.h", G + "BaseHexahedron.h"], [("separating axis / crossing count", G + "BaseRectangularHexahedron.h intersects_*; BaseHexahedron.h intersects_*")], ["intersects(Segment)", "intersects(Triangle)"])
p("C09", "Grid numbering of nodes, cells, edges and faces is a consistent bijection",
  "For every 1D, 2D and 3D regular grid, node and cell indices convert to grid coordinates and back without loss, cover 0..n-1 exactly once and are ordered with the first axis fastest; node positions and cell geometry follow from the anchor, subdivisions and dimensions. The nodes, edges and faces of each cell are those of the lattice: each edge and face index exists once, joins lattice neighbours, and is listed by exactly the cells that share it.",
  ["configurations", "inputs"], "every grid size and anchor, every node, cell, edge and face",
  "Tests use one grid per dimension and a few indices; off-by-one strides that only matter for non-cubic grids survive.",
  [T + "Grid/Grid.h", T + "Grid/Internal/BaseGrid.h", T + "Grid/Internal/BaseMultidimensionalGrid.h", T + "Grid/Internal/BaseUnidimensionalGrid.h"], [("index/coordinate arithmetic", T + "Grid/Grid.h")], ["node(i)", "cell_at", "node_indices_of", "edge", "face", "number_of_*"])
p("C10", "Locating points in a grid returns exactly the cells around them",
  "A position strictly inside a cell is located in that cell and in no other, a position on a node, edge or face is reported around exactly the cells touching it, and a position outside the grid by more than round-off is reported outside with no cell. The cells enclosing a set of positions are exactly the cells of the grid-clipped box spanned by them.",
  ["inputs", "configurations"], "every grid, every position inside, on the interfaces and outside, every small set of positions",
  "Tests query a few points of one grid; clamping, negative offsets and interface cases on each axis are not enumerated.",
  [T + "Grid/Internal/BaseGrid.h", T + "Grid/Internal/BaseMultidimensionalGrid.h", T + "Grid/Internal/BaseUnidimensionalGrid.h"], [("cells_around / cell_index_containing / cells_enclosing / contains", T + "Grid/Internal")], ["contains", "cells_around", "cells_enclosing", "cell_index_containing"])
p("C11", "Spatial hash grid never misses an element near a queried point",
  "After any sequence of additions to a spatial hash grid, querying a point returns the identifier of every added element whose nodes' axis-aligned bounding box contains the point, including points on cell boundaries and at negative coordinates, each identifier once, and nothing that was never added. Elements whose bounding box touches none of the grid cells the point lies in are not returned, and the answer does not depend on the order of additions.",
  ["histories", "inputs", "configurations"], "every sequence of additions, cell size, dimension, and query point",
  "There is no unit test of the hash grid by itself; embedding tests use two meshes.",
  [T + "HashGrid.h"], [("floor of the bounding box; neighbours of near-axis queries; hash and equality", T + "HashGrid.h")], ["HashGrid::add", "HashGrid::get"])
p("C12", "Embedded points are found, located and interpolated correctly",
  "For every domain of straight-sided elements that fill their space and every list of points, each point inside or on the boundary of an element is assigned to an element that really contains it with local coordinates mapping back to the point, and each point outside every element by more than round-off gets no element and is listed (once, in order) as outside. Interpolating a field that is linear in space from the mesh nodes onto the embedded points reproduces it at every inside point and leaves the rows of outside points untouched. Mismatched field sizes, an empty domain or points of the wrong dimension are rejected with an exception and write nothing.",
  ["inputs", "configurations", "fault_sequences"], "every mesh/domain of the supported element types, every set of embedded points, every field, every mismatched size",
  "Tests embed one mesh into another and interpolate one field.",
  [T + "BarycentricContainer.h", T + "HashGrid.h", T + "Domain.h"], [("hash grid lookup, inverse map, containment, interpolate", T + "BarycentricContainer.h")], ["Domain::embed", "barycentric_points()", "outside_nodes()", "interpolate()", "closest_elements()"])
p("C13", "Mesh and domain operations keep ownership, names and links consistent",
  "After any sequence of adding (named, unnamed, existing), removing, copying, moving, assigning, swapping and destroying meshes and domains, each mesh holds exactly the domains it should, in insertion order, under their names, and every domain it holds refers back to that mesh and yields elements from that mesh's node positions. Copies are independent of the original, duplicate names and domains attached elsewhere are rejected with an exception that leaves both meshes unchanged, looking up or removing an unknown domain returns null or false, and no memory is leaked, used after release or released twice.",
  ["histories"], "every sequence of mesh and domain operations up to a bound, over several meshes",
  "Tests add one or two domains to a fresh mesh; no test removes a domain, copies or moves a mesh holding domains, or chains such operations.",
  [T + "Mesh.h", T + "Domain.h", T + "BaseMesh.h", T + "BaseDomain.h"], [("add_domain, remove_domain, remove, copy/move/swap, attach_to, clone", T + "Mesh.h, Domain.h")], ["number_of_domains()", "domains()", "domain(name)", "domain(i)", "BaseDomain::mesh()", "Domain::element()"])
p("C14", "A domain returns the connectivity it was given, however it is stored",
  "For every element type, index type and storage (copied, referenced, raw buffer with any strides), a domain reports the number of elements and nodes per element it was given and returns the given node indices for every element, and its elements are built from those nodes in that order. A domain that copies its connectivity is unaffected by later changes or destruction of the source, one that references it reflects the referenced buffer, and cloned, copied or moved domains return the same connectivity independently of the original's lifetime.",
  ["inputs", "configurations", "histories"], "every connectivity array, index type, stride and storage mode, every copy/move/clone chain",
  "Tests check one connectivity with unit strides; strides, clones and lifetimes are not exercised.",
  [T + "Domain.h"], [("buffer and strided map", T + "Domain.h constructors, copy/move")], ["element_indices()", "element()", "number_of_elements()", "number_of_nodes_per_elements()"])
p("C15", "Mesh node positions are stored and returned faithfully",
  "A mesh built from any container of positions (list of coordinates, fixed or dynamic matrix of any storage order, expression or block; single or double precision) holds exactly those positions and is unaffected by later changes to the source. Every way of reading positions (single, by list of indices in any supported container and order, repeated indices included, or as 3D coordinates) returns those values, with missing coordinates equal to zero.",
  ["inputs", "configurations"], "every number of nodes, dimension, container type, storage order and index list",
  "Tests query two or three nodes of a fixed mesh through a subset of the containers.",
  [T + "Mesh.h"], [("constructors, position, positions, node", T + "Mesh.h")], ["Mesh::position", "Mesh::positions", "Mesh::node", "number_of_nodes"])
p("C16", "VTK files are read faithfully or rejected",
  "Reading a valid VTK unstructured grid yields a mesh with exactly the file's nodes (restricted to the requested axes for lower dimensions) and one domain per supported cell type holding exactly the file's cells of that type, in file order, with nodes reordered to the library's convention so that every element has its file geometry. Cells of unsupported types never alter the other domains, and a missing, empty or unreadable file ends in an exception or an empty mesh and a truncated one in an exception or a mesh of what is left of it, never a crash or a hang; a file whose points vary along a number of axes other than the requested dimension (1 or 2) is rejected.",
  ["inputs", "configurations", "fault_sequences"], "every small unstructured grid (cell types, order, numbering, dimension, index type) and every truncation of such a file",
  "Tests read one file per element type.",
  [T + "IO/VTKReader.h", T + "IO/VTKReader.cpp"], [("extract_axes_from_3D_vectors, per cell type domain builders", T + "IO/VTKReader.cpp")], ["VTKReader::Read", "VTKReader::mesh()"])
p("C17", "Python bindings give the same answers as the native library",
  "Every operation exposed to Python on elements, grids, hash grids, meshes, domains and embeddings returns the values the native operation defines for the same inputs, through the class of the requested type. Objects returned to Python stay valid for as long as Python holds them, whatever the order in which owners are released.",
  ["inputs", "histories", "configurations"], "every bound class and method, every order of release of owners and dependents",
  "The Python tests call a subset of the methods on one element of each type and keep every owner alive.",
  ["src/Caribou/Python/Geometry", "src/Caribou/Python/Topology"], [("pybind11 class definitions and keep-alive policies", "src/Caribou/Python")], ["Caribou.Geometry", "Caribou.Topology"])
p("C18", "Deformation gradient is exact at every point of every element",
  "The deformation gradient computed from shape function derivatives in world coordinates and nodal displacements equals the identity plus the gradient of the interpolated displacement field, with displacement components along rows and derivative directions along columns, in 1D, 2D and 3D. It is the identity for rigid translations, the rotation itself for rigid rotations and the linear part of any affine motion, at every point of every element and for every number of nodes and matrix storage order.",
  ["inputs", "configurations"], "every full-dimensional element type and order, every local point, every nodal displacement of a bounded set",
  "No running test calls it; a transposed or truncated sum shows only for non-symmetric motions or for the nodes left out.",
  ["src/Caribou/Mechanics/Elasticity/Strain.h"], [("strain::F", "src/Caribou/Mechanics/Elasticity/Strain.h")], ["strain::F"])
p("C19", "Symmetric dyad products equal their fourth-order tensor definition",
  "The two symmetric dyadic products of a symmetric second-order tensor a, packed as 6x6 matrices in the order xx, yy, zz, xy, yz, xz, contain at every entry the value of a_ij a_kl, respectively (a_ik a_jl + a_il a_jk)/2, for single and double precision and both storage orders. The matrices are symmetric.",
  ["inputs"], "every symmetric tensor (all small integer tensors, which determine the quadratic forms completely)",
  "No running test calls them; an entry with two swapped factors is only visible on tensors with distinct components.",
  ["src/Caribou/Algebra/Tensor.h"], [("symmetric_dyad_1 / symmetric_dyad_2", "src/Caribou/Algebra/Tensor.h")], ["symmetric_dyad_1", "symmetric_dyad_2"])

S = "src/SofaCaribou/"
p("C20", "Materials: stress and tangent are exact derivatives of the documented energy",
  "For the Saint-Venant-Kirchhoff and Neo-Hookean materials the strain energy density is the documented law of the Lame parameters derived from Young's modulus and Poisson's ratio, the second Piola-Kirchhoff stress is twice its derivative with respect to the right Cauchy-Green tensor, and the tangent is the derivative of the stress with respect to the Green-Lagrange strain, packed in the order xx, yy, zz, xy, yz, xz with engineering shear. Stress and tangent are symmetric, and energy and stress vanish for every rigid motion. A change of the material's parameters is fully effective for every quantity after the next update, and one material never affects another.",
  ["inputs", "histories", "configurations"], "every deformation gradient with positive determinant of a lattice, every parameter set, every history of parameter changes",
  "The SOFA tests solve one scene per material; a wrong tangent entry only slows Newton's convergence and a wrong shear term vanishes on uniaxial problems.",
  [S + "Material/HyperelasticMaterial.h", S + "Material/SaintVenantKirchhoffMaterial.h", S + "Material/NeoHookeanMaterial.h", "src/Caribou/Algebra/Tensor.h"], [("strain_energy_density, PK2_stress, PK2_stress_jacobian, before_update", S + "Material")], ["strain_energy_density", "PK2_stress", "PK2_stress_jacobian"])
p("C21", "Matrix and vector adaptors behave like dense storage under every history",
  "An adaptor around a dense or sparse matrix, by copy or by reference, of any storage order and scalar type, holds after any sequence of additions, assignments, block additions, row, column and row-and-column clearings, compressions, clears and resizes exactly the values that the same sequence gives on a dense matrix, including what the wrapped matrix contained before. A wrapped-by-reference matrix follows every change and a copied one is never touched. The vector adaptor behaves likewise, and the dot product of two vectors is the same whatever kinds of vector they are.",
  ["histories", "inputs", "configurations"], "every operation sequence up to a depth on small matrices of every kind; every pair of vector kinds",
  "The tests run one fixed sequence per matrix kind; clearing after the sparse structure was changed, or wrapping a matrix that already has entries, does not occur in it.",
  [S + "Algebra/EigenMatrix.h", S + "Algebra/EigenVector.h", S + "Algebra/BaseVectorOperations.cpp"], [("EigenMatrix / EigenVector / dot", S + "Algebra")], ["element", "matrix()", "vector()", "dot"])
F = S + "Forcefield/"
p("C22", "Hyperelastic forces and tangent derive from the energy of the mesh",
  "On every mesh of linear or quadratic tetrahedra or hexahedra, the hyperelastic force field's internal force is minus the derivative of its total strain energy with respect to the nodal positions, with the quadrature of the element and the assigned material. The assembled tangent stiffness is the derivative of the force, is symmetric, and the matrix-free product (addDForce) and the matrix assembly (addKToMatrix) apply the same operator, scaled by kFactor. Forces are added to what the given vector already holds, vanish at rest and under every rigid motion, and act only on the nodes of the elements. After any history of evaluations, updates and parameter changes each answer is that of the current positions and parameters, and the bounding box encloses exactly the positions.",
  ["inputs", "histories", "configurations"], "every mesh, numbering, deformation, material, kind of topology and call history up to the bound",
  "The SOFA tests compare a handful of scenes with a tolerance; a stale tangent or a term that vanishes on a symmetric mesh does not show.",
  [F + "HyperelasticForcefield.h", F + "HyperelasticForcefield.inl", F + "CaribouForcefield.h", F + "CaribouForcefield.inl", S + "Topology/CaribouTopology.inl"],
  [("addForce / addDForce / addKToMatrix / K / getPotentialEnergy / assemble_stiffness", F + "HyperelasticForcefield.inl"), ("computeBBox", F + "CaribouForcefield.inl")], ["addForce", "addDForce", "addKToMatrix", "K()", "getPotentialEnergy", "f_bbox"])
p("C23", "Multithreaded assembly gives the sequential matrix under every schedule",
  "With multithreading enabled the hyperelastic force field assembles, under every schedule of every number of threads, the same stiffness matrix as the sequential assembly up to rounding. No schedule has a data race or a deadlock, and no element's contribution is lost, duplicated or stored at other nodes.",
  ["schedules", "configurations"], "every number of threads up to the bound, every order of critical sections, every small mesh",
  "The tests run whatever schedule the machine happens to pick; a race on a shared buffer shows on few of them.",
  [F + "HyperelasticForcefield.inl"], [("OpenMP parallel assembly", F + "HyperelasticForcefield.inl assemble_stiffness")], ["K()", "addKToMatrix"])
p("C24", "Traction forces follow the documented load schedule",
  "The traction force field applies to every node of a surface the current traction times the integral of the node's shape function over the rest surface. With a slope the traction starts at zero and grows by slope times the full traction each time the given number of steps has begun, until exactly the full value; without slope it is applied in full from the start. Nodal forces, total load and the applied force agree at any moment; events other than the beginning of a step change nothing; a reset starts the same schedule again.",
  ["histories", "inputs", "configurations"], "every surface, traction, slope, waiting period and history of steps, events and resets up to the bound",
  "The test runs one load to completion on one cube face; the resets and pauses in between are never exercised.",
  [F + "TractionForcefield.h", F + "TractionForcefield.inl", F + "TractionForcefield[Quad].cpp", F + "TractionForcefield[Triangle].cpp"],
  [("handleEvent / increment_load / reset / addForce", F + "TractionForcefield.inl")], ["addForce", "d_nodal_forces", "d_total_load", "d_traction"])
p("C25", "Barycentric mapping interpolates the parent and maps forces by the transpose",
  "Every mapped point located in the parent topology moves with the interpolation of the parent's nodes by the shape functions of the element that contains its rest position. Positions, velocities, the reported jacobian and constraint directions use this one operator, and forces and constraint rows go back through exactly its transpose, added to what the parent already holds. A point on a shared facet follows that facet whichever element it is attached to, and a point outside of every element is reported and never moves the parent.",
  ["inputs", "histories", "configurations"], "every mesh, every lattice point of its elements and around them, every nodal displacement, every short call history",
  "The tests map one point set and compare positions; the transpose and its accumulation are not checked.",
  [S + "Mapping/CaribouBarycentricMapping.h", S + "Mapping/CaribouBarycentricMapping.inl", T + "BarycentricContainer.h"], [("apply / applyJ / applyJT / getJ", S + "Mapping/CaribouBarycentricMapping.inl")], ["apply", "applyJ", "applyJT", "getJ"])
p("C26", "The fictitious grid follows the immersed surface exactly",
  "For every regular grid and immersed surface (implicit iso-surface or triangulated), each cell is classified inside, outside or boundary as the surface says, boundary cells are subdivided down to the requested level, and cells outside are left out of the sparse grid. The sparse grid numbers the kept cells and their nodes densely and consistently in both directions, leaves tile their parents, face neighbours are complete and mutual, and connected regions of the same type are the connected components. The integration points lie in the kept leaves and integrate the volume of each, the volume ratios are those of the leaves inside or cut, and the type at a position is that of a leaf containing it. Creating a grid again gives what a new one gives, and parallel subdivision gives the sequential grid under every schedule.",
  ["inputs", "configurations", "histories", "schedules"], "every sign assignment on small grids, every lattice of spheres, circles and cylinders, closed and open triangulations, subdivision levels, thread schedules up to the bound",
  "The tests check the number of cells of one circle or one sphere.",
  [S + "Topology/FictitiousGrid.h", S + "Topology/FictitiousGrid.inl", S + "Topology/FictitiousGrid.cpp", S + "Topology/IsoSurface.h", S + "Topology/CircleIsoSurface.h", S + "Topology/SphereIsoSurface.h", S + "Topology/CylinderIsoSurface.h"],
  [("create_grid and its stages", S + "Topology/FictitiousGrid.inl")], ["get_type_at", "get_neighbors", "get_gauss_nodes_of_cell", "number_of_cells", "cell_index_in_sparse_grid", "topology data"])
p("C27", "Elastic forces are consistent, objective and keep up with their parameters",
  "The (corotated) linear elastic forces on tetrahedra and hexahedra give the internal force of Hooke's law in each element's rotated frame, integrated over the rest shape. Without corotation the tangent is the exact derivative of the force; with it, it is the rotated element stiffness; it is symmetric, and the matrix-free product, the assembled matrix and K() are one operator. With corotation, forces vanish under every rigid motion and rotate with the body. After any history of evaluations, re-initialisations and parameter changes each answer is that of the current settings, and a component whose initialisation failed contributes nothing.",
  ["inputs", "histories", "configurations"], "every mesh, initial orientation, setting, deformation and call history up to the bound",
  "The scenes used as tests start aligned with the axes, where the wrong frame and the right one coincide.",
  [F + "HexahedronElasticForce.h", F + "HexahedronElasticForce.cpp", F + "TetrahedronElasticForce.h", F + "TetrahedronElasticForce.cpp"], [("addForce / addDForce / addKToMatrix / K / reinit / computeBBox", F + "*ElasticForce.cpp")], ["addForce", "addDForce", "addKToMatrix", "K()"])
p("C28", "Linear solvers solve the system they were given, or say they did not",
  "For every system matrix a linear solver accepts (direct LDLT, LLT, LU; conjugate gradient with every preconditioner; with or without an assembled matrix), the solution returned solves that system for that right-hand side: the direct ones to rounding, the conjugate gradient to its residual tolerance whenever it reports convergence, and never further from the solution than the initial guess. A right-hand side of zero gives zero, the right-hand side is left untouched, and the recorded residuals are those of the iterates. Systems assembled from a scene are m M + b B + k K with mapped parts transported and constrained unknowns removed. Every answer is that of the current matrix, pattern, size, settings and graph, whatever was solved before; when a factorisation fails no solution is written.",
  ["inputs", "histories", "configurations"], "every small matrix, right-hand side, guess, solver and preconditioner, and every history of systems up to the bound",
  "The existing scenes solve one system with one pattern per process.",
  [S + "Solver/" + f for f in ("EigenSolver.h", "EigenSolver.inl", "LDLTSolver.inl", "LLTSolver.inl", "LUSolver.inl", "ConjugateGradientSolver.h", "ConjugateGradientSolver.inl", "LinearSolver.h")] + [S + "Visitor/AssembleGlobalMatrix.cpp", S + "Visitor/ConstrainGlobalMatrix.cpp"],
  [("analyze_pattern / factorize / solve", S + "Solver/*.inl"), ("setSystemMBKMatrix / solveSystem", S + "Solver/EigenSolver.inl")], ["solve", "solveSystem", "squared_residuals", "element of the solution vectors"])
p("C29", "ODE solvers take the step their equations define and report it honestly",
  "For every scene (masses, damping, linear and nonlinear forces, mapped bodies, fixed points, several bodies), time step and history of steps, the static solvers perform Newton iterations on f(x) = 0 and the backward Euler solver on M a + (r_m M + r_k K + C) v = f(x) with v = v_0 + h a, x = x_0 + h v: each iterate is the Newton iterate, mapped states follow, and fixed points stay where they are. The number of iterations is bounded by the maximum, the solver stops as soon as an enabled criterion is met and reports convergence exactly then, the recorded residuals are those of the iterates, and static solvers keep velocities. The pattern analysis strategy does not change the result as long as the pattern stays the analysed one, and a step does not depend on what was solved before beyond its initial state.",
  ["inputs", "histories", "configurations"], "every small scene, setting and sequence of steps up to the bound",
  "The existing scenes compare one beam with a reference solution to a loose tolerance and start at rest.",
  [S + "Ode/" + f for f in ("NewtonRaphsonSolver.h", "NewtonRaphsonSolver.cpp", "StaticODESolver.cpp", "BackwardEulerODESolver.h", "BackwardEulerODESolver.cpp", "LegacyStaticODESolver.h", "LegacyStaticODESolver.cpp")],
  [("solve and its stages", S + "Ode/NewtonRaphsonSolver.cpp"), ("assemble_rhs_vector / assemble_system_matrix / propagate_solution_increment", S + "Ode/*.cpp")], ["positions", "velocities", "squared_residuals", "converged"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
