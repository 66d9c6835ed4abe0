#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script so that edits stay consistent). Run: python3 tools/mkprops.py
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

MS="src/surface/manifold_surface_mesh.cpp"; SM="src/surface/surface_mesh.cpp"
MI="include/geometrycentral/surface/surface_mesh.ipp"
p("C01","Every mutation history leaves a valid oriented manifold halfedge mesh",
 "After any sequence of successful or refused connectivity edits and compressions on a manifold mesh, the mesh is a valid oriented manifold halfedge structure: twins pair up, next-orbits partition the halfedges into exactly the faces and boundary loops, and the outgoing halfedges of every vertex form one connected fan. Every element's representative halfedge belongs to it, and boundary edges and boundary vertices are represented by an interior halfedge lying on the boundary.",
 ["histories","inputs"],"all edit sequences (vertex/edge/face insertion, split, connect, flip, collapse, removal, cut, triangulation, compression) on all closed and bounded manifold polygon meshes, including ones with parallel edges and self-edges",
 "The few mutation tests that exist apply one kind of edit to a handful of files and are not even part of the stable suite; validity must survive every interleaving of edits.",
 [MS,SM],[("mutators",MS),("element allocation, deletion, compression",SM)],
 [("halfedge arrays","next/vertex/face pointers plus representative halfedges")],"public element handles after each call")
p("C02","Element counts, topology summaries and enumerations are always truthful",
 "At every point of every edit history the reported numbers of vertices, edges, faces, boundary loops, corners, interior, exterior and all halfedges equal what iterating over the mesh visits, each live element exactly once. The Euler characteristic, genus, interior-vertex count, component count and boundary/triangular flags agree with the actual connectivity, and the dense index enumerations are bijections onto 0..n-1 in iteration order.",
 ["histories","inputs"],"all edit histories on manifold and general meshes, compressed or not",
 "Counts are cached and adjusted by hand in each mutator; tests check them only right after construction.",
 [MS,SM,MI,"include/geometrycentral/surface/halfedge_logic_templates.ipp"],[("cached counters",SM),("iteration range validity",("include/geometrycentral/surface/halfedge_logic_templates.ipp"))])
p("C03","Each successful edit performs exactly its documented connectivity change",
 "A successful edit of a manifold mesh (flip, vertex insertion along an edge or in a face, edge split, connecting vertices, face triangulation, edge collapse, vertex/edge/face removal, edge cut, side switch) changes connectivity exactly as documented, leaves every untouched vertex, edge, face and halfedge as it was, and returns the documented element. In particular vertices keep their identity and direction conventions of split edges are preserved.",
 ["histories","inputs"],"every edit applied at every element of every reachable manifold mesh",
 "Tests sample one or two elements per operation and mostly check only that the mesh still validates.",
 [MS,SM],[("mutators",MS),("flip",SM)])
p("C04","Refused edits change nothing and are refused exactly when illegal",
 "An edit that reports failure (false, a null element, or an exception for a documented precondition) leaves connectivity, counts and all attached data exactly as before. Edits whose documented precondition holds succeed, and edits that would create a non-manifold or otherwise unsupported result are refused.",
 ["histories","inputs"],"every edit requested at every element, legal or not, of every reachable mesh",
 "The failing branches depend on unusual local configurations (parallel edges, low degrees, pinches, boundaries) absent from test meshes.",
 [MS,SM],[("precondition checks in mutators",MS)])
p("C05","Building a mesh from polygons is faithful and rejects malformed input",
 "Constructing a manifold mesh from a polygon list yields exactly those faces in order with edges glued precisely where two polygons share opposite vertex pairs, boundary loops exactly along the unmatched sides, and input vertex numbering preserved; lists that do not describe an oriented manifold are rejected. Constructing a general mesh accepts non-manifold, unoriented input and represents every polygon side and vertex incidence, and explicit gluing constructors glue exactly the named sides.",
 ["inputs"],"all polygon lists over small vertex sets, with arbitrary degrees, orientation and sharing, plus explicit gluing tables",
 "Inputs in tests are a few clean meshes; acceptance and gluing must be right for every list.",
 [MS,SM,"src/surface/surface_mesh_factories.cpp"],[("constructors",MS),("constructors, neighbor lists",SM)])
p("C06","Mesh copies are identical and fully independent",
 "Copying a mesh (same type, to a general mesh, or to a manifold mesh) at any point of its history yields the same connectivity with the same element numbering and counts, and later edits to either mesh never affect the other. Exporting polygons and rebuilding gives an isomorphic mesh, and per-element data transferred to the copy keeps its values and stays usable as the copy is edited.",
 ["histories"],"all edit histories with copies and conversions taken at arbitrary points, followed by edits of both sides",
 "Tests copy fresh compressed meshes and do not edit afterwards.",
 [SM,MS,"include/geometrycentral/utilities/mesh_data.ipp"],[("copyInternalFields, toManifoldMesh",SM),("reinterpretTo","include/geometrycentral/utilities/mesh_data.ipp")])
p("C07","Per-element data follows its elements through any edit history",
 "Data attached to vertices, edges, faces, halfedges, corners or boundary loops keeps, for every surviving element, the value last written to it across any insertions, deletions, buffer growth and compression. Elements created after the container read as the container's default value until written.",
 ["histories"],"all interleavings of container creation, copy, write, default change, mesh edits and compression, for every element kind and for point clouds",
 "Reallocation and permutation happen only for particular sizes and deletion patterns that tests do not reach.",
 ["include/geometrycentral/utilities/mesh_data.ipp","include/geometrycentral/utilities/mesh_data.h",SM],[("expand/permute callbacks","include/geometrycentral/utilities/mesh_data.ipp"),("compress permutations",SM)])
p("C08","Containers behave as values and outlive moves, copies and mesh deletion",
 "Copying, assigning, moving, filling, arithmetic on, converting to and from dense vectors, and destroying per-element containers behave as for ordinary values: copies are independent, sources of copies are unchanged, conversions list live elements in order, and arithmetic is elementwise. No sequence of container operations interleaved with mesh edits, compression and destruction of the mesh or containers causes stale, out-of-range or dangling access.",
 ["histories"],"all interleavings of container value operations with mesh edits, compressions and destructions",
 "Tests exercise each operation in isolation on a static mesh.",
 ["include/geometrycentral/utilities/mesh_data.ipp"],[("callback registration and deregistration","include/geometrycentral/utilities/mesh_data.ipp")])
p("C09","Compression densely renumbers and changes nothing else",
 "Compressing after any history makes every element kind densely numbered, preserves the relative order of surviving elements, keeps the connectivity identical up to that renumbering, reports the mesh as compressed, and notifies every attached container once with the matching permutation. Compressing an already compressed mesh is a no-op, and the mesh remains fully editable afterwards.",
 ["histories"],"all edit histories with compression at arbitrary points, on meshes with any number of boundary loops",
 "Tests compress at most once and look at one element type.",
 [SM],[("compress*",SM)])
p("C10","Local navigation and adjacency queries match the connectivity",
 "Walking around any vertex, edge, face or boundary loop visits exactly the incident or adjacent elements, in the documented rotational order where one is promised, and degree, boundary, manifold, orientation, connecting-edge, previous-in-orbit and corner queries agree with the underlying incidences. This holds on manifold and non-manifold meshes, closed or bounded, compressed or not.",
 ["inputs","histories"],"all elements of all reachable meshes, manifold and general",
 "Tests walk a few clean meshes and check totals only.",
 ["include/geometrycentral/surface/halfedge_element_types.ipp","include/geometrycentral/surface/halfedge_element_types.h",MI,SM],[("navigation ranges","include/geometrycentral/surface/halfedge_element_types.ipp"),("vertex neighbour lists",SM)])
p("C11","General (non-manifold) meshes stay consistent under their edits",
 "On a general mesh, any sequence of face inversion, face duplication, edge flips, splitting of non-manifold edges and vertices, greedy orientation and compression keeps a consistent structure: face orbits, per-edge halfedge rings, per-vertex incidence lists and orientation flags always describe the same polygons. Each operation does what it documents - inversion reverses one face, separation yields an edge- or vertex-manifold mesh with the same polygons, and conversion to a manifold mesh succeeds exactly when the result is manifold and oriented.",
 ["histories","inputs"],"all edit sequences on general meshes built from arbitrary small polygon soups",
 "Non-manifold configurations are barely sampled by tests and never chained.",
 [SM],[("general mesh mutators",SM),("addToVertexLists/removeFromVertexLists",SM)])
p("C12","The mutation manager honours its constraints and updates geometry",
 "With any assignment of constraints, managed edits never move a vertex, split, collapse or flip an edge, or split a face that is protected, and report refusal; unprotected edits behave like the unmanaged edit. Constraint flags are inherited by the pieces of a split edge, newly created elements take the declared default, and new vertex positions are the requested or interpolated ones with all other vertices in place.",
 ["histories","configurations"],"all sequences of managed edits under all constraint assignments, with or without geometry",
 "Constraint combinations and inheritance across several splits are not tested.",
 ["src/surface/mutation_manager.cpp","include/geometrycentral/surface/mutation_manager.h"],[("constraints and callbacks","src/surface/mutation_manager.cpp")])
p("C13","Mutation callbacks fire exactly around successful edits",
 "Each registered handler is called exactly once before and once after every successful managed edit of its kind, in registration order, with the element and parameter of that edit, the before-call seeing the unmodified mesh and the after-call seeing the result together with the data its before-call returned. Handlers of other edit kinds are never called, and once a handler is removed it is never called again.",
 ["histories"],"all interleavings of handler registration, removal and managed edits",
 "No test registers several handlers, removes one, and then performs every kind of edit.",
 ["src/surface/mutation_manager.cpp","include/geometrycentral/surface/mutation_manager.ipp"],[("policy lists","src/surface/mutation_manager.cpp")])
p("C14","Integer coordinates always encode the input edges on the intrinsic mesh",
 "Under any sequence of intrinsic edge flips, splits, insertions and removals, the stored crossing counts and roundabouts encode exactly the input mesh's edges: each count is the number of times input edges cross that intrinsic edge, coincident edges are recognised as shared, and tracing any input edge produces a curve that starts and ends at that edge's endpoints. Flipping away and back restores the same encoding.",
 ["histories","inputs"],"all flip/split/insert/remove sequences on small closed and bounded triangulations, including ones with self-edges and repeated triangles",
 "Tests compare a few global totals after one fixed pipeline; the encoding has many corner cases reached only by long flip sequences.",
 ["src/surface/normal_coordinates.cpp","src/surface/integer_coordinates_intrinsic_triangulation.cpp"],[("flip formulas","src/surface/normal_coordinates.cpp"),("curve tracing","src/surface/normal_coordinates.cpp")])
p("C15","Intrinsic triangulation edits preserve the surface they describe",
 "For both intrinsic triangulation implementations, every edit keeps a valid triangulation of the same surface: total area, vertex curvatures and boundary length are unchanged, every intrinsic vertex keeps a valid location, and traced edges connect the locations of their endpoints with matching length. Marked edges and boundary edges are never flipped away, split marked edges stay marked, edit callbacks fire once per change, and refused edits change nothing.",
 ["histories","inputs"],"all edit sequences on small closed and bounded geometric triangulations",
 "Tests run one flip or refine call per mesh and check summary statistics.",
 ["src/surface/intrinsic_triangulation.cpp","src/surface/signpost_intrinsic_triangulation.cpp","src/surface/integer_coordinates_intrinsic_triangulation.cpp"],[("low-level mutators","src/surface/signpost_intrinsic_triangulation.cpp")])
p("C16","The common subdivision is a consistent overlay of both triangulations",
 "For any reachable intrinsic triangulation, the common subdivision contains each vertex of either triangulation once and each crossing once, its points along every input and intrinsic edge run in order from one endpoint to the other, and the extracted mesh is a valid manifold with the same topology whose faces each lie in one input face and one intrinsic face. Interpolation from either triangulation reproduces vertex data and constants exactly, and predicted element counts equal those built.",
 ["histories","inputs"],"all intrinsic triangulations reachable by edits of small meshes",
 "Tests look at a couple of meshes after one Delaunay pass.",
 ["src/surface/common_subdivision.cpp","src/surface/integer_coordinates_intrinsic_triangulation.cpp"],[("constructMesh and point lists","src/surface/common_subdivision.cpp")])
p("C17","Delaunay flipping and refinement terminate with what they promise",
 "Flipping to Delaunay always terminates and every flippable interior edge that is not marked fixed then satisfies the Delaunay condition, with fixed edges untouched and a consistent mesh. Refinement returns a Delaunay triangulation meeting the requested angle bound away from unavoidable narrow cone or boundary corners, never exceeds the insertion limit, and the stand-alone flipping routine agrees.",
 ["inputs","histories"],"all small geometric triangulations with arbitrary edge lengths and fixed-edge sets",
 "Tests use a few well-shaped models without fixed edges.",
 ["src/surface/intrinsic_triangulation.cpp","src/surface/simple_idt.cpp"],[("flipToDelaunay/delaunayRefine","src/surface/intrinsic_triangulation.cpp"),("flipToDelaunay","src/surface/simple_idt.cpp")])
p("C18","Cached geometry quantities are fresh after refresh, whatever the request history",
 "After any sequence of requests, releases, purges, input changes and refreshes of geometric quantities on a mesh or point-cloud geometry, every quantity currently requested holds the value that a newly built geometry with the inputs as of the last refresh (or first request since) would report, independent of the order in which quantities were requested. Purging never discards a requested quantity, releasing never invalidates other requests, and releasing more often than requesting is reported as an error.",
 ["histories","configurations"],"all sequences of require/unrequire/purge/refresh/move over all quantities and geometry classes",
 "Tests require each quantity once on a static mesh, usually after its dependencies were already computed.",
 ["include/geometrycentral/utilities/dependent_quantity.ipp","src/surface/base_geometry_interface.cpp","src/surface/intrinsic_geometry_interface.cpp","src/surface/extrinsic_geometry_interface.cpp","src/surface/embedded_geometry_interface.cpp","src/pointcloud/point_position_geometry.cpp"],[("dependency management","include/geometrycentral/utilities/dependent_quantity.ipp"),("per-quantity compute functions","src/surface/embedded_geometry_interface.cpp")])
p("C19","Disjoint sets implement exactly the generated equivalence and marks",
 "After any sequence of merges and lookups, two elements have the same representative exactly when connected by merges, and the representative is a member of the class. With marks, an element is marked exactly when its class inherited a mark from a marked member and was not unmarked since.",
 ["histories"],"all operation sequences over small universes",
 "No test covers the structure directly.",
 ["src/utilities/disjoint_sets.cpp"],[("find/merge/mark","src/utilities/disjoint_sets.cpp")])
p("C20","Edge-graph shortest paths are connected and truly shortest",
 "The shortest edge path between two vertices is a head-to-tail chain of halfedges from source to target of minimal total length, and is empty exactly when source equals target or no such chain exists. Distances within a radius are reported for exactly the vertices whose graph distance does not exceed the radius, with that distance.",
 ["inputs"],"all meshes, edge lengths, source/target pairs and radii",
 "No test covers these routines.",
 ["src/surface/mesh_graph_algorithms.cpp"],[("Dijkstra searches","src/surface/mesh_graph_algorithms.cpp")])
p("C21","Subdivision yields the exact refined connectivity and rule-given positions",
 "Linear, Catmull-Clark and Loop subdivision of any valid mesh replace every face by the scheme's refined pattern, with one new vertex per edge (and per face where the scheme says so), original vertices and boundaries preserved in topology. New and old vertex positions are those of the scheme's averaging rules, applied to the pre-subdivision positions.",
 ["inputs"],"all small closed and bounded polygon or triangle meshes with arbitrary positions",
 "No test checks the resulting connectivity or positions.",
 ["src/surface/subdivide.cpp"],[("subdivision schemes","src/surface/subdivide.cpp")])
p("C22","Point-cloud containers and nearest-neighbour queries are exact",
 "Nearest-neighbour queries return exactly k distinct points none farther than any omitted point, in non-decreasing distance and excluding the source point when asked for neighbours of a point; radius queries return exactly the points within the ball. Per-point neighbourhoods and point-cloud enumerations and copies are consistent with these.",
 ["inputs"],"all point sets, including duplicates, with all query points, k and radii",
 "The stable tests only check counts on one random cloud.",
 ["src/utilities/knn.cpp","src/pointcloud/neighborhoods.cpp","src/pointcloud/point_cloud.cpp"],[("NearestNeighborFinder","src/utilities/knn.cpp"),("Neighborhoods","src/pointcloud/neighborhoods.cpp")])
p("C23","Polygon-soup clean-up removes exactly the offending parts",
 "Merging identical vertices, stripping unused vertices, invalid faces or duplicate faces, triangulating, consistently orienting and uniting polygon soups perform exactly that change: kept faces describe the same geometry in the same order with coordinates attached to the right corners, and nothing offending remains. Orientation makes faces that meet along a two-sided edge agree wherever the patch is orientable, by reversals only.",
 ["inputs","histories"],"all small polygon soups and all sequences of clean-up operations",
 "No test exercises these on anything but clean files.",
 ["src/surface/simple_polygon_mesh.cpp"],[("clean-up routines","src/surface/simple_polygon_mesh.cpp")])
p("C24","Mesh files round-trip",
 "Writing a mesh to a file or stream and reading it back gives the same vertices, faces and corner coordinates, and reading any well-formed OBJ, OFF, STL or PLY file describing a polygon mesh yields exactly the mesh it describes, through every loading entry point. Point clouds round-trip likewise. Malformed or unsupported input is reported as an error.",
 ["inputs"],"all small polygon meshes and the syntactic variants of the supported formats",
 "The repository's read/write tests cover a few files and fail in this environment.",
 ["src/surface/simple_polygon_mesh.cpp","src/surface/meshio.cpp","src/pointcloud/point_cloud_io.cpp"],[("readers and writers","src/surface/simple_polygon_mesh.cpp")])
p("C25","Edge-flip geodesics keep a connected network and never lengthen it",
 "Straightening a network of edge paths keeps every path a connected chain between its original endpoints (loops stay loops), passes through marked vertices still when paths are pinned there (straightenAroundMarkedVertices off), never increases any path's length (a run cut short may stop while a closed path is being opened), and on full termination leaves no joint whose open wedge is below a half turn, unless the loop only surrounds a single vertex of less than a half turn. Rewinding undoes the straightening flips, and the underlying intrinsic triangulation stays valid.",
 ["inputs","histories"],"all edge paths and loops on small geometric triangulations, with iteration and length bounds",
 "No stable test covers this component.",
 ["src/surface/flip_geodesics.cpp"],[("FlipEdgeNetwork","src/surface/flip_geodesics.cpp")])
p("C26","Surface points and barycentric vectors convert without changing meaning",
 "Re-expressing a point on the surface in a containing face, edge or vertex, reducing it, or finding a shared face keeps the same location, and reports adjacency exactly when a common cell exists. Displacement vectors between points keep their value when re-expressed in an incident face or edge, and their arithmetic is linear.",
 ["inputs"],"all points (with small rational coordinates) on all elements of small meshes and all pairs of them",
 "No stable test covers these conversions.",
 ["include/geometrycentral/surface/surface_point.ipp","src/surface/surface_point.cpp","include/geometrycentral/surface/barycentric_vector.ipp","src/surface/barycentric_vector.cpp"],[("conversions","include/geometrycentral/surface/surface_point.ipp")])
p("C27","Matrix block decomposition and assembly are exact inverses",
 "Splitting a square sparse matrix or vector along any subset of indices puts every entry in the block and position given by the order of the indices, and reassembling gives back the original. Block-stacked assembly and complex-to-real expansion place each entry where the layout says, and symmetry checks accept exactly the symmetric/Hermitian matrices.",
 ["inputs"],"all small sparse integer matrices and index subsets",
 "The linear algebra tests sample random matrices for two of the helpers only.",
 ["include/geometrycentral/numerical/linear_algebra_utilities.ipp"],[("blockDecompose etc.","include/geometrycentral/numerical/linear_algebra_utilities.ipp")])
p("C28","Remeshing and simplification preserve topology and constraints",
 "Automatic remeshing, edge-length adjustment, Delaunay repair and error-driven simplification always return a valid, compressed mesh with the same topology (components, genus, boundary loops), respect the constraints of the mutation manager passed to them, and keep fixed boundaries fixed. All coordinates stay finite when the input is non-degenerate.",
 ["inputs","configurations"],"all small closed and bounded triangle meshes, options and constraint sets",
 "No stable test covers remeshing or simplification.",
 ["src/surface/remeshing.cpp","src/surface/quadric_error_simplification.cpp"],[("adjustEdgeLengths etc.","src/surface/remeshing.cpp"),("quadricErrorSimplify","src/surface/quadric_error_simplification.cpp")])
p("C29","Direction fields are smooth, aligned and have the right singularities",
 "For every direction field on a surface, given or computed, the index reported at each face or vertex is the number of turns the field makes around it beyond what the curvature enforces; on a closed surface the indices add up to the symmetry order times the Euler characteristic. Computed fields have finite unit directions, are parallel wherever the surface admits a parallel field of that symmetry, do not depend on the numbering of vertices, faces and halfedges, agree with the outward normals on the boundary when aligned to it, and follow the principal directions of a prism when aligned to curvature; alignment to a boundary that does not exist and curvature alignment of other symmetries than two and four are refused.",
 ["inputs"],"all small connected triangle meshes with lengths or positions, closed and bounded, symmetry orders and fields at vertices and faces",
 "No stable test covers direction fields.",
 ["src/surface/direction_fields.cpp"],[("computeFaceIndex/computeVertexIndex","src/surface/direction_fields.cpp"),("smoothest, boundary-aligned and curvature-aligned fields","src/surface/direction_fields.cpp"),("tangent frames and transport","src/surface/intrinsic_geometry_interface.cpp")])
p("C30","Triangle intersection tests are exact on integer coordinates",
 "The triangle-triangle intersection predicate answers true exactly when two triangles with small integer coordinates share a point, for coplanar and non-coplanar positions alike, independently of vertex order and argument order. Mesh-level intersection reports the faces that truly cross.",
 ["inputs"],"all pairs of triangles on a small integer grid",
 "No test covers the predicate; its case analysis has dozens of branches.",
 ["src/utilities/tri_tri_intersect.cpp","src/surface/intersection.cpp"],[("case analysis","src/utilities/tri_tri_intersect.cpp")])
p("C31","Level-set extraction yields complete, closed or boundary-ended curves",
 "Extracting the level set of a vertex function on a triangle mesh returns curves whose points lie on mesh elements at exactly that level, covers every crossed triangle exactly once, and joins segments into chains that are closed or end only on the boundary or at the level's own endpoints, oriented consistently with the function's increase.",
 ["inputs"],"all small triangle meshes with small integer vertex values and all levels",
 "No test covers contour extraction.",
 ["src/surface/marching_triangles.cpp"],[("marchingTriangles","src/surface/marching_triangles.cpp")])
p("C32","Cutting along edges opens exactly the cut and tracks parents",
 "Cutting a mesh along a tree of interior edges yields a valid manifold mesh with the same faces in which every cut edge is split into two boundary edges and every other edge stays glued, leaving the input untouched; disks remain connected. Each halfedge of the result maps back to the halfedge it came from, and new exterior ones map to nothing.",
 ["inputs"],"all edge trees on small closed and bounded meshes",
 "No test covers cutting.",
 ["src/surface/surgery.cpp",MS],[("cutAlongEdges","src/surface/surgery.cpp"),("separateEdge",MS)])
p("C33","Traced geodesics walk a connected strip and conserve length",
 "Tracing a straight path over the surface from any point visits a chain of points each adjacent to the next through a common face, its length equals the requested length unless it stops at a boundary or barrier (then the reported remainder makes up the difference), and it starts at the given point. Tracing back along the returned end direction returns to the start.",
 ["inputs"],"all start points, directions, lengths and trace options on small geometric meshes",
 "No stable test covers tracing.",
 ["src/surface/trace_geodesic.cpp"],[("traceGeodesic","src/surface/trace_geodesic.cpp")])
p("C34","Saved mesh bundles restore connectivity and all attached data",
 "Saving a mesh with any set of named per-element properties and geometry and loading it again restores the same element numbering, connectivity and every property value, for manifold and general meshes at any point of their edit history. Asking for data that was not saved, reading the data onto a mesh with another number of elements, or loading a mesh from a file without connectivity is reported as an error.",
 ["histories","inputs"],"all reachable meshes and all sets of attached scalar/vector properties",
 "Saving is untestable in this environment (the PLY library is missing) and tests cover fresh meshes only.",
 ["src/surface/rich_surface_mesh_data.cpp","include/geometrycentral/surface/rich_surface_mesh_data.ipp"],[("RichSurfaceMeshData","src/surface/rich_surface_mesh_data.cpp")])
p("C35","Diffusion-based distances and transport converge to the true geometry",
 "Heat-method, vector-heat and signed-heat solvers return distances, scalar extensions and parallel transport that converge to the true quantities as the mesh is refined.",
 ["inputs"],"all surfaces and sources under refinement",
 "Convergence is a statement about limits.",
 ["src/surface/heat_method_distance.cpp","src/surface/vector_heat_method.cpp","src/surface/signed_heat_method.cpp"],[("solvers","src/surface/heat_method_distance.cpp")])
p("C36","Parameterizations and uniformizations are numerically conformal",
 "Flattening and uniformization routines return maps whose angle distortion vanishes under refinement and that satisfy the prescribed boundary data to solver accuracy.",
 ["inputs"],"all disks and boundary data",
 "Numeric accuracy over all surfaces.",
 ["src/surface/boundary_first_flattening.cpp","src/surface/uniformize.cpp","src/surface/parameterize.cpp"],[("solvers","src/surface/boundary_first_flattening.cpp")])
p("C37","Linear and eigen solvers return solutions to working precision",
 "The linear, least-squares and eigenvector solvers return vectors satisfying their defining equations to working precision for all well-conditioned matrices.",
 ["inputs"],"all well-conditioned sparse matrices",
 "Numeric accuracy over all matrices.",
 ["src/numerical"],[("solvers","src/numerical/linear_solvers.cpp")])
p("C38","Every geometric quantity and operator has the value its definition gives",
 "For every mesh with vertex positions or edge lengths, at any point of its edit history, every quantity a geometry offers (lengths, areas, angles, curvatures, normals, tangent frames, transports, masses, Laplacians, exterior derivatives, polygon operators) has the value its documented definition gives, with rows and columns following the dense element numbering; the immediate version for one element agrees with the cached one.",
 ["inputs","histories"],"all small meshes (bounded, closed, edited, non-manifold, polygonal) with small integer positions, all quantities in any order of asking",
 "The stable tests touch no surface geometry; a wrong weight at a boundary, on an obtuse corner or after deletions is invisible to samples.",
 ["src/surface/intrinsic_geometry_interface.cpp","src/surface/embedded_geometry_interface.cpp","include/geometrycentral/surface/vertex_position_geometry.ipp","include/geometrycentral/surface/edge_length_geometry.ipp"],
 [("computeVertexConnectionLaplacian","src/surface/intrinsic_geometry_interface.cpp"),("computeFaceNormals","src/surface/embedded_geometry_interface.cpp")])
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
    with open(out,"w") as f:
        for x in P:
            assert len(x["title"])<=80,(x["id"],len(x["title"]))
            f.write(json.dumps(x)+"\n")
    print(len(P))
