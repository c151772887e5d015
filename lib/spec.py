import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pybuild

"""What each property's check builds and runs."""
CXX = "g++"
BASE_FLAGS = ["-std=c++17", "-O1", "-g0", "-DNDEBUG", "-w", "-I/usr/include/eigen3", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1"]
VTK_FLAGS = ["-I/usr/include/vtk-9.1"]
VTK_LIBS = ["-lvtkIOLegacy-9.1", "-lvtkIOCore-9.1", "-lvtkCommonExecutionModel-9.1", "-lvtkCommonDataModel-9.1", "-lvtkCommonTransforms-9.1",
            "-lvtkCommonMath-9.1", "-lvtkCommonCore-9.1", "-lvtksys-9.1", "-ldl", "-ltbb"]
SOFA = ["-I{here}/harness/sofa_stub", "-I{build}/sofa_include"]
TOPO = ["src/SofaCaribou/Topology/CaribouTopology[%s].cpp" % e for e in ("Tetrahedron", "Hexahedron", "Triangle", "Quad")]
FF = ["src/SofaCaribou/Forcefield/%s[%s].cpp" % (f, e) for f in ("CaribouForcefield", "HyperelasticForcefield") for e in ("Tetrahedron", "Hexahedron")] + TOPO[:2]
TR = ["src/SofaCaribou/Forcefield/%s[%s].cpp" % (f, e) for f in ("CaribouForcefield", "TractionForcefield") for e in ("Triangle", "Quad")] + TOPO[2:]
MAP = ["src/SofaCaribou/Mapping/CaribouBarycentricMapping[%s].cpp" % e for e in ("Tetrahedron", "Hexahedron")] + TOPO[:2]
GRID = ["src/SofaCaribou/Topology/FictitiousGrid.cpp", "src/SofaCaribou/Topology/IsoSurface.cpp"]
WRAPS = ["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "memcpy", "memmove", "memset", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock"))]
SOLVE = SOFA + ["-DMINISOFA_FACTORY"]
LIN = ["src/SofaCaribou/Solver/%sSolver.cpp" % e for e in ("ConjugateGradient", "LDLT", "LLT", "LU")] + ["src/SofaCaribou/Visitor/%s.cpp" % e for e in ("AssembleGlobalMatrix", "ConstrainGlobalMatrix", "MultiVecEqualVisitor")] + ["src/SofaCaribou/Algebra/BaseVectorOperations.cpp"]
ODES = ["src/SofaCaribou/Ode/%s.cpp" % e for e in ("NewtonRaphsonSolver", "StaticODESolver", "BackwardEulerODESolver", "LegacyStaticODESolver")]
PAR = ["-fopenmp", "-fsanitize=thread", "-DCARIBOU_WITH_OPENMP"]
BIND = "every explored state is produced by calling the real code compiled from the working tree; the reference model is evaluated on the same state and compared (no separate trace translation)"
ALL7 = [0, 1, 2, 3, 4, 5, 6]


def prop(units, rule, level="model_checking", **kw):
    d = {"units": units, "rule": rule, "level": level, "binding": BIND, "min_states": 1}
    d.update(kw)
    return d


SPECS = {
    "C01": prop([dict(name="shape", src="c01_shape.cpp", shards=ALL7)],
                "every point of a rational lattice over (and around) the reference domain of each of the 24 element types, compared with shape functions obtained by inverting the Vandermonde system of the documented polynomial space; interpolation of every monomial of that space",
                min_states=10000),
    "C02": prop([dict(name="deriv", src="c02_deriv.cpp", shards=ALL7)],
                "every lattice point of the reference domain (enlarged) for the 24 element types against exact derivatives of the reference shape functions; jacobian on every affine image and every single-node displacement, also against central differences of the code's own world map",
                min_states=10000),
    "C03": prop([dict(name="roundtrip", src="c03_roundtrip.cpp", shards=ALL7)],
                "every lattice point of every enumerated element configuration: world map against the reference interpolation, then inverted by the code and compared",
                min_states=10000),
    "C04": prop([dict(name="contains", src="c04_contains.cpp", shards=ALL7)],
                "every lattice point around the reference domain and every combination of small offsets from its faces, edges and corners, for several tolerances",
                min_states=10000),
    "C05": prop([dict(name="quadrature", src="c05_quadrature.cpp", shards=ALL7)],
                "every quadrature point of every rule; every monomial up to the rule's degree; measure of every enumerated element configuration against an independent high-order integration",
                min_states=1000),
    "C06": prop([dict(name="boundary", src="c06_boundary.cpp", shards=[1, 2, 3, 4, 5, 6])],
                "every boundary element, face and edge of every element type against the facets derived from the reference nodes; geometry of every boundary element of every enumerated configuration",
                min_states=1000),
    "C07": prop([dict(name="construct", src="c07_construct.cpp", shards=[0, 1, 2, 3, 4, 5, 6, 7])],
                "every constructor over every enumerated node configuration; rectangular elements over all sizes x centres x rotations of the bounded set, compared with the closed form and with the general element",
                min_states=1000),
    "C08": prop([dict(name="intersect", src="c08_intersect.cpp", run_shards=8)],
                "all ordered segments and triangles over an integer lattice around the cube, classified by an exact integer separating-axis test; cubes under rotations, anisotropic sizes, offsets and affine maps",
                min_states=100000),
    "C09": prop([dict(name="index", src="c09_grid_index.cpp")],
                "every grid up to the bound: every node, cell, edge and face index against the integer lattice",
                min_states=10000),
    "C10": prop([dict(name="locate", src="c10_grid_locate.cpp")],
                "every position of a lattice in and around every grid up to the bound, classified exactly in integers; all pairs and a residue class of triples of positions for the enclosing box",
                min_states=10000),
    "C11": prop([dict(name="hashgrid", src="c11_hashgrid.cpp", run_shards=8)],
                "all histories of one addition over every box of a quarter-cell lattice and of two/three additions over a smaller alphabet, each with every query point of the lattice, decided exactly in integers",
                min_states=10000),
    "C12": prop([dict(name="embed", src="c12_embed.cpp", shards=[0, 1, 2, 3, 4, 5, 6, 7])],
                "every lattice point in and around every mesh of a set of lattice meshes under affine images, classified exactly on the lattice; linear and nodal fields; all combinations of size mismatches; bilinear distortions by single-node displacement",
                min_states=10000),
    "C13": prop([dict(name="mesh", src="c13_mesh.cpp", run_shards=8, timeout_thorough=3000),
                 dict(name="mesh-asan", src="c13_mesh.cpp", flags=SAN, run_shards=8, leaks=True, timeout_thorough=5000)],
                "all operation sequences to a depth over two meshes and a free domain (also from populated states) and every transition of the reachable abstract state graph, each replayed on real meshes through its shortest history; complete observable state compared; once with the plain allocator (address reuse), once under AddressSanitizer/LeakSanitizer/UBSan",
                min_states=1000),
    "C14": prop([dict(name="domain", src="c14_domain.cpp", shards=[0, 1, 2, 3, 4], flags=SAN, leaks=True)],
                "every storage mode, stride pattern, index type and number of elements, each followed by every chain of copy/clone/move operations with originals destroyed, under AddressSanitizer; content compared with the given connectivity",
                min_states=10000),
    "C15": prop([dict(name="positions", src="c15_positions.cpp", shards=[1, 2, 3, 11, 12, 13])],
                "every source container type, node container and number of nodes up to the bound; every index tuple up to length 3 in every index container",
                min_states=10000),
    "C16": prop([dict(name="vtk", src="c16_vtk.cpp", shards=[1, 2, 3], run_shards=3, flags=VTK_FLAGS, repo_sources=["src/Caribou/Topology/IO/VTKReader.cpp"], libs=VTK_LIBS),
                 dict(name="vtk-asan", src="c16_vtk.cpp", shards=[1, 2, 3], run_shards=3, flags=VTK_FLAGS + SAN, repo_sources=["src/Caribou/Topology/IO/VTKReader.cpp"], libs=VTK_LIBS, tier="thorough")],
                "every sequence of up to three cell types (supported or not) with permuted numbering, in every dimension, index type and file format; every pattern of varying axes; every truncation of a file of every cell type; unreadable files",
                min_states=10000),
    "C17": prop([dict(name="bindings", argv=["/usr/bin/python3", "{here}/harness/c17_bindings.py", "{build}/py"], prepare=pybuild.prepare, run_shards=8, timeout=240)],
                "every overload of every bound constructor and operation on every input of the native oracle, and every order of releasing mesh, domain, embedding and list with freed memory overwritten and reused",
                min_states=10000),
    "C18": prop([dict(name="strain", src="c18_strain.cpp", shards=ALL7)],
                "all pairs of unit matrices for every node count and dimension; every affine and single-node motion of every configuration of the full-dimensional element types",
                min_states=10000),
    "C19": prop([dict(name="dyad", src="c19_dyad.cpp")],
                "every symmetric tensor with small integer components, each of the 72 packed entries against the index definition",
                min_states=10000),
    "C20": prop([dict(name="material", src="c20_material.cpp", flags=SOFA, run_shards=8)],
                "every deformation gradient of a nine-dimensional lattice with positive determinant, for both materials and five parameter sets, against the documented laws in extended precision and against differences of the code's own energy and stress; all histories of parameter changes on two materials",
                min_states=10000),
    "C21": prop([dict(name="algebra", src="c21_algebra.cpp", flags=SOFA, repo_sources=["src/SofaCaribou/Algebra/BaseVectorOperations.cpp"], run_shards=8)],
                "all operation histories to a depth over matrices of several shapes, storage orders and scalar types, by copy and by reference, from new, wrapped-empty and wrapped-populated start states, against a dense model; all vector histories; the dot product of every pair of vector kinds over all small vectors",
                min_states=10000),
    "C22": prop([dict(name="hyper", src="c22_hyper.cpp", shards=[0, 1, 2, 3], run_shards=4, flags=SOFA, repo_sources=FF)],
                "every mesh of a set (local and global numberings, unused nodes, distorted), every affine and single-node deformation, both materials and every kind of topology, against an index-notation reference in extended precision; all call histories to a depth over two position vectors and two parameter sets; all orderings of small position sets for the bounding box",
                min_states=1000),
    "C23": prop([dict(name="parallel", src="c23_parallel.cpp", shards=[0, 1, 2, 3], run_shards=2, flags=SOFA + PAR, repo_sources=FF, aux=["omp_model.cpp"], libs=WRAPS, own_runtime=True)],
                "all schedules of the parallel assembly (every order of critical sections and other synchronisation) for every number of threads and elements to a bound, on the real code under a model OpenMP runtime with a happens-before race detector; each resulting matrix against the reference",
                min_states=100),
    "C24": prop([dict(name="traction", src="c24_traction.cpp", shards=[0, 1, 2, 3], flags=SOFA, repo_sources=TR)],
                "every surface of a set (numberings, orientations, corner, distorted), traction, slope and waiting period; all histories of steps, other events and resets to a depth, against the documented load schedule times the integral of the shape functions",
                min_states=1000),
    "C25": prop([dict(name="mapping", src="c25_mapping.cpp", shards=[0, 1], run_shards=4, flags=SOFA, repo_sources=MAP)],
                "every point of a lattice of every element of every mesh, as sets, groups and alone; the operator recovered column by column and compared with the shape functions; all three-call histories; transposes on forces and on constraint rows; outside points",
                min_states=1000),
    "C26": prop([dict(name="grid", src="c26_grid.cpp", shards=[0, 1, 2, 3, 4], run_shards=6, flags=SOFA, repo_sources=GRID),
                 dict(name="memory", src="c26_grid.cpp", shards=[5], run_shards=4, flags=SOFA + SAN, repo_sources=GRID, leaks=True),
                 dict(name="schedules", src="c26_parallel.cpp", shards=[2, 3], flags=SOFA + PAR, repo_sources=GRID, aux=["omp_model.cpp"], libs=WRAPS, own_runtime=True)],
                "every assignment of inside/outside/on-the-surface to the nodes of small grids, every surface that differs from a uniform sign at a few nodes of a divided grid, circles, spheres and cylinders over a lattice of radii and centres, closed and open triangulated surfaces; whole public state (sparse grid, leaves, regions, neighbours, integration points, volume ratios, type of positions) against a reference quadtree/octree; one grid goes through the whole history of configurations",
                min_states=10000),
    "C27": prop([dict(name="elastic", src="c27_elastic.cpp", shards=[0, 1, 2, 3], run_shards=4, flags=SOFA, repo_sources=["src/SofaCaribou/Forcefield/%sElasticForce.cpp" % e for e in ("Hexahedron", "Tetrahedron")] + TOPO[:2])],
                "every mesh of a set in several initial orientations, every setting, affine deformations and single-node displacements: forces and tangent against an independent corotated reference, objectivity; all histories of forces, parameter changes and queries to a depth; failed initialisations",
                min_states=1000),
    "C28": prop([dict(name="matrices", src="c28_linear.cpp", shards=[0], run_shards=4, flags=SOLVE, repo_sources=LIN),
                 dict(name="histories", src="c28_linear.cpp", shards=[1], run_shards=4, flags=SOLVE, repo_sources=LIN),
                 dict(name="memory", src="c28_linear.cpp", shards=[2], run_shards=4, flags=SOLVE + SAN, repo_sources=LIN, leaks=True)],
                "every small integer matrix through the direct interface of every registered solver; every pair (thorough: triple) of assembled systems with other patterns, sizes, constraints, factors and preconditioners through one solver; dense reference of the constrained system",
                min_states=10000),
    "C30": prop([dict(name="memory", src="c30_topology.cpp", shards=[0], run_shards=4, flags=SOFA + SAN, repo_sources=[t for t in TR if "Quad" not in t]),
                 dict(name="surface", src="c30_topology.cpp", shards=[1], run_shards=4, flags=SOFA, repo_sources=[t for t in TR if "Triangle" not in t]),
                 dict(name="volume", src="c30_topology.cpp", shards=[2], run_shards=4, flags=SOFA, repo_sources=FF)],
                "all histories, to a depth, of setting indices and positions, attaching domains and initialising, for every topology component; every set of topology objects in a node and every link, for every force field, against a model",
                min_states=10000),
    "C29": prop([dict(name="ode", src="c29_ode.cpp", shards=[0, 1], run_shards=4, flags=SOLVE, repo_sources=LIN + ODES),
                 dict(name="memory", src="c29_ode.cpp", shards=[2], run_shards=4, flags=SOLVE + SAN, repo_sources=LIN + ODES, leaks=True)],
                "every configuration of small mechanical systems, options and short histories of steps through the integrators; every Newton iterate, residual list, converged flag and mapped state against a dense reference of the documented scheme",
                min_states=10000),
}
