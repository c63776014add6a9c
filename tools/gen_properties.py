#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one call per property)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

B = "src/base/"
p("C01", "Adjacency queries of full-representation meshes equal the incidence relation",
  "In a mesh of the F1 or F4 representation built from any valid 2D, 3D or mixed collection of vertices, edges, faces and regions, every upward, downward and sideways adjacency query (lists, ID arrays, counts, uses-entity tests, common-edge and common-face lookups) returns exactly the entities that the definition of the mesh makes incident, each once. In particular A is reported on B's boundary exactly when B is reported as using A.",
  ["inputs", "configurations"], "all valid meshes (triangles, quads, polygons, tets, pyramids, prisms, hexes, polyhedra, non-manifold surfaces, dangling faces and edges), all creation orders and creation routes, both full representations",
  "the unit tests query a handful of fixed one-element or regular meshes; the guarantee is for every mesh, creation order and start orientation",
  [B+"MVertex_F1.c", B+"MVertex_F4.c", B+"MEdge_F1.c", B+"MEdge_F4.c", B+"MFace_F1.c", B+"MFace_F4.c", B+"MF_Edge_Funcs_F1F3.c", B+"MF_Edge_Funcs_F2F4.c", B+"MR_Face_Funcs_FNR3R4.c", B+"MR_Edge_Funcs_FN.c", B+"MR_Vertex_Funcs_FNR3R4.c"],
  [("per-representation jump tables", "include/MVertex_jmp.h, include/MEdge_jmp.h, include/MFace_jmp.h, include/MRegion_jmp.h"), ("reverse links kept by MF_Set_Edges/MR_Set_Faces", "src/base/MF_Edge_Funcs_F1F3.c, src/base/MR_Face_Funcs_FNR3R4.c")],
  ["MV_Edges/MV_Faces/MV_Regions/MV_AdjVertices", "ME_Faces/ME_Regions", "MF_Regions/MF_AdjFaces", "MR_Faces/MR_Edges/MR_Vertices/MR_AdjRegions", "the ...IDs and ...Num_... variants", "MVs_CommonEdge/MVs_CommonFace/MEs_CommonFace"])
p("C02", "Reduced representations answer queries as the mesh their regions describe",
  "In a solid mesh held in the reduced representation R1 or R2, whose regions were defined by MR_Set_Vertices (standard elements, or any polyhedra by a face template), the edges and faces are implicit: they are made when asked for. Identified by their vertices, they are exactly the edges and faces of the regions: the vertices, edges and faces of a region, the faces, edges and vertices around a vertex, the faces and regions at an edge, the regions of a face, with the counts, ID queries and uses-entity and are-same tests, all agree with the mesh the regions describe; the vertices and edges of a face come in cyclic order in the direction and from the vertex asked for, and face directions say whether the face's vertex order points out of the region. This remains so after regions are deleted and restored. (Not promised: counts of or iteration over the implicit entities of the whole mesh, persistent identity or IDs of implicit entities, region-region adjacency.)",
  ["inputs", "configurations", "histories"], "all solid meshes of tetrahedra, pyramids, prisms, hexahedra and polyhedra, standard or templated definitions in any vertex and face order, any deletions and restorations of regions",
  "no test builds a mesh in a reduced representation",
  [B+"MVertex_R1.c", B+"MVertex_R2.c", B+"MF_Vertex_Funcs_R1.c", B+"MF_Vertex_Funcs_R2.c", B+"MF_Edge_Funcs_R1.c", B+"MF_Region_Funcs_R1.c", B+"MF_Region_Funcs_R2.c", B+"MR_Vertex_Funcs_R1.c", B+"MR_Vertex_Funcs_R2.c", B+"MR_Edge_Funcs_R1.c", B+"MR_Edge_Funcs_R2.c", B+"MR_Face_Funcs_R1.c", B+"MR_Face_Funcs_R2.c", B+"ME_Region_Funcs_RN.c", B+"ME_Face_Funcs_R1R2.c", B+"MRegion_R1.c", B+"MRegion_R2.c"],
  [("implicit edges and faces made from the element or face templates", "src/base/MR_Edge_Funcs_R1.c, src/base/MR_Face_Funcs_R1.c"), ("vertex to region lists kept by MR_Set_Vertices, MR_Delete and MR_Restore", "src/base/MR_Vertex_Funcs_R1.c, src/base/MRegion_R1.c")],
  ["MV_Edges/MV_Faces/MV_Regions/MV_AdjVertices", "ME_Faces/ME_Regions", "MF_Vertices/MF_Edges/MF_Regions/MF_Region", "MR_Vertices/MR_Edges/MR_Faces/MR_FaceDir", "MEs_AreSame/MFs_AreSame/MVs_CommonEdge"])
p("C03", "Face and region orientation queries follow the documented ordering",
  "The vertices and edges of a face are listed in cyclic order, forwards or backwards as requested and beginning at the requested start vertex, and every edge-direction query agrees with that order; the region on each side of a face agrees with the direction in which each region uses the face. Vertices of a standard region come in the documented ordering for its type, whatever the order and the directions in which its faces were given.",
  ["inputs", "configurations"], "all faces and regions of all valid meshes, all start vertices and directions, all rotations, reflections and permutations of the faces handed over at creation",
  "tests compare one element of each type in one fixed creation order",
  [B+"MF_Edge_Funcs_F1F3.c", B+"MF_Edge_Funcs_F2F4.c", B+"MR_Vertex_Funcs_FNR3R4.c", B+"MR_Edge_Funcs_FN.c", B+"MR_Face_Funcs_FNR3R4.c", B+"MFace_F1.c"],
  [("edge direction bits of a face", "src/base/MF_Edge_Funcs_F1F3.c"), ("face direction bits of a region", "src/base/MR_Face_Funcs_FNR3R4.c"), ("template ordering of standard regions", "src/base/MR_Vertex_Funcs_FNR3R4.c")],
  ["MF_Vertices", "MF_Edges", "MF_EdgeDir", "MF_Region", "MR_FaceDir", "MR_Vertices", "MR_Edges", "MF_Coords", "MR_Coords"])
p("C04", "Creating, deleting and restoring entities keeps the mesh database consistent",
  "After any history of creating, deleting (permanently or keeping the data) and restoring entities, the mesh counts, indexed access, iteration and lookup by local ID report exactly the live entities, each once, with distinct IDs per entity type, and no adjacency query ever returns a deleted entity. A restored entity has the same definition as before its deletion.",
  ["histories"], "all sequences of create, delete, keep-delete, restore, renumber and ID-lookup operations that respect the deletion order the manual demands",
  "histories of deletions and restorations are not exercised at all by the unit tests beyond single operators",
  [B+"Mesh.c", B+"MEntity.c", B+"MVertex.c", B+"MEdge.c", B+"MFace.c", B+"MRegion.c", "src/util/List.c"],
  [("entity lists and ID sorted flags", "src/base/Mesh.c"), ("keep flag and restore", "src/base/MEdge_F1.c, src/base/MF_Edge_Funcs_F1F3.c, src/base/MR_Face_Funcs_FNR3R4.c")],
  ["MESH_Num_*", "MESH_Vertex/Edge/Face/Region", "MESH_Next_*", "MESH_*FromID", "M?_Delete/M?_Restore"])
p("C05", "Lists behave as ordered sequences under any history of operations",
  "A list is an ordered sequence: after any history of additions, insertions, removals, replacements, copies, concatenations, compressions and sorts, its length, its i-th entry, its iteration order, membership and position queries agree with those of a plain sequence given the same operations. Out-of-range or absent-entry requests are refused as documented without changing the list.",
  ["histories"], "all histories over several lists, including removal while holes are present and growth across reallocation",
  "no unit test targets lists; the hole bookkeeping only matters for histories of removals followed by other operations",
  ["src/util/List.c"], [("packed removal info of a list (holes, first hole)", "src/util/List.c")],
  ["List_* functions of MSTK.h"])
p("C06", "Mesh sets behave as named ordered sets and their algebra is set algebra",
  "A mesh set keeps the entities added to it in order under any history of additions, removals, replacements and renames and is found by its name and index on the mesh until deleted; union, intersection and difference return sets with exactly the members of the corresponding set operation. Deleting or removing entities of the mesh does not disturb sets that do not contain them.",
  ["histories"], "all histories over several sets and all pairs of sets",
  "no unit test exercises set algebra or set histories",
  [B+"MSet.c", B+"Mesh.c", "src/util/List.c"], [("set entity list and registration on the mesh", "src/base/MSet.c")],
  ["MSet_*/MSets_* functions", "MESH_MSet*", "MESH_Next_MSet"])
p("C07", "Attributes return the last value set, per entity and attribute",
  "For every attribute type and entity type, the value read from an entity is the last value set on it (vectors and tensors as independent copies with the declared number of components), or the documented default when it was never set, was cleared, or was removed. Setting, clearing, removing or deleting one attribute or one entity's value never changes any other value, and attributes are found by name and index until deleted.",
  ["histories"], "all histories of attribute creation, setting, overwriting, clearing, removal and deletion on all entity types",
  "the attribute test sets each type once on one entity",
  [B+"MAttrib.c", B+"MEntity.c", B+"Mesh.c"], [("attribute instance list of an entity", "src/base/MEntity.c"), ("attribute registry", "src/base/Mesh.c")],
  ["MEnt_Set_*AttVal", "MEnt_Get_*AttVal", "MEnt_Clear_AttVal", "MEnt_Rem_AttVal", "MEnt_Rem_AllAttVals", "MAttrib_*", "MESH_AttribByName"])
p("C08", "Renumbering is a pure relabelling with contiguous local IDs",
  "Renumbering a mesh, sequentially or by reverse Cuthill-McKee, of one entity type or all, leaves every entity with its geometry, topology, classification and attributes and only changes local IDs, which afterwards are exactly 1..n for each renumbered type and untouched for the others; reverse Cuthill-McKee never widens the ID bandwidth of neighbouring entities and gives long thin meshes a bandwidth of a few cross-sections. Lookup by local ID works on the renumbered mesh.",
  ["inputs", "configurations"], "all meshes including those with ID gaps from deletions and disconnected meshes, both methods, all entity types",
  "no serial unit test renumbers a mesh and compares it",
  ["src/hilev/MESH_Renumber.c", "src/util/Graph_renumber.c"], [("RCM ordering of the adjacency graph", "src/util/Graph_renumber.c, src/hilev/MESH_Renumber.c")],
  ["MESH_Renumber", "M?_ID", "MESH_*FromID"])
p("C09", "Native-format files round-trip the mesh",
  "Writing a mesh to the native format with any representation type and reading it back yields the same mesh: vertex coordinates to the printed precision, the same elements with the same vertices and orientation, the same classification and the same integer, real, vector and tensor attribute values on every entity the file lists, entity for entity. Writing the re-read mesh again gives an equivalent file, and the written mesh is unchanged.",
  ["inputs", "configurations"], "all meshes, attributes, classifications and representation types for writing and reading",
  "tests only read a few fixed files and never write and compare",
  [B+"MESH_WriteToFile.c", B+"MESH_InitFromFile.c"], [("writer per representation", "src/base/MESH_WriteToFile.c"), ("reader per representation", "src/base/MESH_InitFromFile.c")],
  ["MESH_WriteToFile", "MESH_InitFromFile", "MESH_ExportToFile(...,\"mstk\",...)"])
p("C10", "Exodus II files round-trip the mesh, its blocks, sets and fields",
  "Exporting a serial mesh to Exodus II and importing it yields a mesh with the same vertices, elements (type, connectivity, orientation), element block membership as region or face classification, node, side and element sets, and real and vector/tensor fields on nodes and elements, and leaves the exported mesh as it was. Files written by other programs are read for what they say; this holds for 2D (z = 0), surface and 3D meshes with standard elements, polygons and polyhedra.",
  ["inputs", "configurations"], "all meshes, block partitions, sets and attribute selections the exporter accepts",
  "tests read fixed files and compare one written file",
  ["src/io/MESH_ExportToExodusII.c", "src/io/MESH_ReadExodusII_Serial.c", "src/io/MESH_ImportFromExodusII.c"], [("block and set construction", "src/io/MESH_ExportToExodusII.c"), ("block, set and field reconstruction", "src/io/MESH_ReadExodusII_Serial.c")],
  ["MESH_ExportToExodusII", "MESH_ImportFromExodusII", "MESH_ExportToFile", "MESH_ImportFromFile"])
p("C11", "GMV files round-trip the mesh and its attributes",
  "Exporting a mesh to GMV and importing it back preserves vertices, element connectivity and type, material numbers derived from classification, and exported scalar attributes. Every element and every vertex appears exactly once.",
  ["inputs", "configurations"], "all 2D and 3D meshes with standard, polygonal and polyhedral elements and attribute selections",
  "the GMV reader and writer have no unit test",
  ["src/io/MESH_ExportToGMV.c", "src/io/MESH_ImportFromGMV.c"], [("writer", "src/io/MESH_ExportToGMV.c"), ("reader", "src/io/MESH_ImportFromGMV.c")],
  ["MESH_ExportToGMV", "MESH_ImportFromGMV"])
p("C12", "FLAG X3D files round-trip the mesh",
  "Exporting a mesh to FLAG X3D and importing it back preserves the vertices, the cells with their faces, the material of each cell and exported cell and node attributes. The written file lists each face once per cell that uses it and pairs the two uses consistently.",
  ["inputs", "configurations"], "all 2D and 3D meshes the format can hold",
  "the X3D reader and writer have no unit test",
  ["src/io/MESH_ExportToFLAGX3D.c", "src/io/MESH_ImportFromFLAGX3D.c"], [("writer", "src/io/MESH_ExportToFLAGX3D.c"), ("reader", "src/io/MESH_ImportFromFLAGX3D.c")],
  ["MESH_ExportToFLAGX3D", "MESH_ImportFromFLAGX3D"])
p("C13", "STL, OFF and DX exports describe exactly the mesh",
  "A triangle surface exported to STL, a surface exported to OFF, or a mesh exported to DX (surfaces and tetrahedra, pyramids, prisms and hexahedra), read by an independent parser of the format, describes exactly the mesh's vertices and faces or elements with their orientation and, in DX, their model entity. Counts and offsets in the header match the body, whatever IDs the mesh entities have, and the mesh is unchanged. A mesh STL or OFF cannot hold is refused.",
  ["inputs"], "all surface and volume meshes each format supports",
  "these exporters have no unit test",
  ["src/io/MESH_ExportToSTL.c", "src/io/MESH_ExportToOFF.c", "src/io/MESH_ExportToDXBin.c"], [("writers", "src/io/MESH_ExportToSTL.c, src/io/MESH_ExportToOFF.c, src/io/MESH_ExportToDXBin.c")],
  ["MESH_ExportToSTL", "MESH_ExportToOFF", "MESH_ExportToDX"])
p("C14", "Copying a mesh yields an equal, independent mesh",
  "Copying a mesh gives a destination with the same vertices, elements, classification and (on request) attributes and entity sets, entity for entity, while the source is unchanged; the copy of a distributed mesh is a distributed mesh with the same owners, ghosts and global IDs. Later changes to either mesh do not show in the other.",
  ["inputs", "configurations"], "all meshes, attribute and set contents, and options",
  "copying has no unit test", [B+"MESH_Copy.c", "src/par/MESH_CopyAttr.c"], [("entity correspondence during copying", "src/base/MESH_Copy.c")],
  ["MESH_Copy"])
p("C15", "Automatic classification is consistent with mesh topology",
  "After MESH_BuildClassfn every entity is on a model entity of at least its own dimension: a face between regions of one model region is inside it and other faces are on model faces; an edge is inside a region, on a model face, or on a model edge as its faces say, and a vertex as its edges say, and no model vertex has two vertices. Boundary entities without classification share a model entity exactly when they bound the same model entities (with use of geometry: and are connected without crossing a sharp edge or corner). Classification given beforehand for regions, boundary faces, model edges and model vertices is kept.",
  ["inputs", "configurations"], "all 2D and 3D meshes, with and without material partitions, with and without use of geometry",
  "classification has no unit test of its own",
  ["src/hilev/MESH_BuildClassfn.c", "src/hilev/MESH_BuildFaceClassfn.c", "src/hilev/MESH_BuildEdgeClassfn.c", "src/hilev/MESH_BuildVertexClassfn.c"], [("classification by dimension", "src/hilev/MESH_Build*Classfn.c")],
  ["MESH_BuildClassfn", "M?_GEntDim", "M?_GEntID"])
p("C16", "Generated structured meshes tile their box exactly",
  "A structured mesh generated for a box with nx by ny (by nz) cells has exactly the vertices, edges, faces and regions of that grid at the right coordinates, is topologically valid with the expected orientation, fills the box's area or volume, and is classified on the box's vertices, edges, faces and interior.",
  ["inputs"], "all boxes and cell counts in 2D and 3D",
  "the generator has no unit test",
  ["src/hilev/MESH_Gen_Structured.c"], [("grid construction and classification templates", "src/hilev/MESH_Gen_Structured.c")],
  ["MESH_Gen_Structured"])
p("C17", "Mesh conversion operators preserve the domain",
  "Converting a tetrahedral mesh to hexahedra or a triangle mesh to quadrilaterals gives a valid conforming mesh of four hexes per tet or three quads per triangle, with the same total volume or area and with the original vertices at the same places and classification, leaves the source unchanged, and is refused for other elements. Deleting the interior of a mesh removes exactly the entities classified in the interior and leaves the rest untouched.",
  ["inputs"], "all tetrahedral and triangular meshes; all classified meshes for interior deletion",
  "these operators have no unit test",
  ["src/hilev/MESH_Tet2Hex.c", "src/hilev/MESH_Tri2Quad.c", "src/hilev/MESH_DelInterior.c"], [("conversion operators", "src/hilev/MESH_Tet2Hex.c, src/hilev/MESH_Tri2Quad.c, src/hilev/MESH_DelInterior.c")],
  ["MESH_Tet2Hex", "MESH_Tri2Quad", "MESH_DelInterior"])
p("C18", "Element graphs equal the face (edge) adjacency of elements",
  "The element graph of a mesh lists, for every element, exactly the elements sharing a face (an edge for surface meshes), symmetrically, once per shared face (edge) and never itself. The element graph computed directly from an Exodus II file equals the one of the mesh in that file, and its element centres are the averages of the element vertices.",
  ["inputs"], "all 2D and 3D meshes of all element types, and files with several element blocks",
  "the graph tests compare four fixed files",
  ["src/hilev/MESH_GetElementGraph.c", "src/io/ExodusII_GetElementGraph.c"], [("graph from mesh", "src/hilev/MESH_GetElementGraph.c"), ("graph from file without building a mesh", "src/io/ExodusII_GetElementGraph.c")],
  ["MESH_GetElementGraph", "ExodusII_GetElementGraph"])
p("C19", "Geometric queries agree with elementary geometry",
  "Edge lengths and vectors, angles between edges, dihedral angles between faces, face and region coordinate arrays and condition numbers of element corners equal the values computed independently from the vertex coordinates to floating-point tolerance, and are invariant under translation and rotation of the mesh.",
  ["inputs"], "all non-degenerate elements in all positions and orientations",
  "the dihedral test uses one configuration",
  [B+"MEdge.c", "src/hilev/MEs_Angle.c", "src/hilev/MFs_DihedralAngle.c", "src/hilev/MF_Coords.c", "src/hilev/MR_Coords.c", "src/misc/MF_CondNums.c"], [("vector helpers", "include/MSTK_VecFuncs.h")],
  ["ME_Len", "ME_LenSqr", "ME_Vec", "MEs_Angle", "MFs_DihedralAngle", "MF_Coords", "MR_Coords", "MF_CondNums"])
p("C20", "The topology checker accepts valid meshes and rejects broken ones",
  "The mesh topology check succeeds on every valid, consistently oriented and classified mesh, and fails on every mesh in which a single reverse link, orientation, classification dimension or closure condition it is documented to check has been broken.",
  ["inputs", "fault_sequences"], "all valid meshes; all single corruptions of the documented kinds at any entity",
  "the checker is only run on known good meshes",
  ["src/hilev/MESH_CheckTopo.c"], [("topology checks per entity type", "src/hilev/MESH_CheckTopo.c")],
  ["MESH_CheckTopo"])
M = "src/mod/"
p("C21", "Edge splits preserve the domain and mesh validity",
  "Splitting an edge at a point, at several points, or together with all connected simplices yields a valid mesh in which the edge is replaced by a chain of new edges through the new vertices, all incident faces and regions contain the chain (or are subdivided for simplex splits), and nothing else changes. Orientation, classification and total area or volume are preserved.",
  ["inputs", "histories"], "all edges of all meshes, any sequence of splits, interior and boundary, tri/tet for the simplex form",
  "each operator is tested on one small mesh",
  [M+"ME_Split.c", M+"ME_MultiSplit.c", M+"ME_Split_SimplexMesh.c", B+"MF_Edge_Funcs_F1F3.c"], [("edge replacement in faces", "src/base/MF_Edge_Funcs_F1F3.c"), ("split operators", "src/mod/ME_Split*.c, src/mod/ME_MultiSplit.c")],
  ["ME_Split", "ME_MultiSplit", "ME_Split_SimplexMesh"])
p("C22", "Face and region splits and joins preserve the domain and undo each other",
  "Splitting a face by an edge or by a point, splitting a region by an edge loop, and joining two faces or two regions yield valid meshes with the same total area or volume and unchanged surroundings, in which the pieces together have exactly the boundary of the original and inherit its orientation and classification. Joining the two pieces of a split gives back the original element's vertices and boundary.",
  ["inputs", "histories"], "all faces and regions of all meshes, all splitting edges and loops, all joinable pairs, any sequence",
  "each operator is tested on one small mesh, joins are barely tested",
  [M+"MF_Split.c", M+"MF_Split_with_Edge.c", M+"MF_Split_SimplexMesh.c", M+"MR_Split_with_EdgeLoop.c", M+"MFs_Join.c", M+"MRs_Join.c"], [("face replacement in regions", "src/base/MR_Face_Funcs_FNR3R4.c"), ("split and join operators", "src/mod/")],
  ["MF_Split", "MF_Split_with_Edge", "MF_Split_SimplexMesh", "MR_Split_with_EdgeLoop", "MFs_Join", "MRs_Join"])
p("C23", "Edge collapse removes exactly the collapsed entities and keeps the mesh valid",
  "Collapsing an edge, wherever merging its end vertices leaves a topologically valid mesh, merges them into one and keeps the vertex asked for, removes exactly the faces and regions that become degenerate and merges the duplicated edges and faces, so that every surviving element has its old vertices with the removed vertex replaced by the kept one. The reported lists of deleted entities and of merged pairs are exactly those. When topology is to be respected, no entity is merged into one on a higher-dimensional or another model entity of the same dimension, and a collapse that would need this is refused and changes nothing. Where these rules leave a choice it does not depend on the order of the mesh: with no vertex asked for, an end on the outside of the mesh is kept over one that is not (topology not respected) and otherwise the end with the lower global ID (topology respected); of two merged edges or faces the one on the boundary survives over the interior one, otherwise the one with the lower global ID.",
  ["inputs", "histories"], "all edges of all triangle, quad, tet, mixed and polyhedral meshes whose collapse gives a valid mesh, both topology flags, any kept vertex or none, any classification, sequences of collapses",
  "the collapse tests use two small meshes",
  [M+"ME_Collapse.c", M+"MVs_Merge.c", M+"MEs_Merge.c", M+"MFs_Merge.c"], [("topology checks and degenerate element removal", "src/mod/ME_Collapse.c")],
  ["ME_Collapse"])
p("C24", "Merging vertices, edges and faces joins exactly their users",
  "Merging two vertices, edges or faces deletes the second and makes every entity that used it use the first instead, changing nothing else; coordinates, classification and adjacency of all other entities are unchanged and the result is valid. With topology respected, a merge that would reduce the dimension of the classification is refused without any change.",
  ["inputs", "histories"], "all mergeable pairs over meshes glued from separate pieces, both topology flags",
  "merges are exercised only through collapse",
  [M+"MVs_Merge.c", M+"MEs_Merge.c", M+"MFs_Merge.c"], [("merge operators", "src/mod/M?s_Merge.c")],
  ["MVs_Merge", "MEs_Merge", "MFs_Merge"])
p("C25", "Edge swap in triangulations exchanges the diagonal and nothing else",
  "Swapping an interior edge shared by two triangles replaces the two triangles by the two others of the same quadrilateral, with the same boundary, orientation and classification, and leaves everything else unchanged; swapping the new edge again restores the original triangles. When the swap is not possible it is refused and the mesh is unchanged.",
  ["inputs", "histories"], "all edges of all triangulated surfaces, any sequence of swaps",
  "the swap has no unit test",
  [M+"ME_Swap2D.c"], [("swap operator", "src/mod/ME_Swap2D.c")], ["ME_Swap2D"])
p("C26", "Low-level topology edits keep both directions of every link consistent",
  "Replacing, inserting or removing edges of a face, replacing or removing faces of a region, replacing vertices, and reversing or setting edge and face directions change exactly the named entity's boundary as documented, and afterwards upward and downward adjacency, orientation and region sides still agree everywhere.",
  ["inputs", "histories"], "all faces and regions, all positions including wrap-around, both full representations, any sequence of edits",
  "two operators are tested on one element each",
  [B+"MF_Edge_Funcs_F1F3.c", B+"MF_Edge_Funcs_F2F4.c", B+"MR_Face_Funcs_FNR3R4.c", B+"MEdge.c"], [("edge and face replacement", "src/base/MF_Edge_Funcs_F1F3.c, src/base/MR_Face_Funcs_FNR3R4.c")],
  ["MF_Replace_Edges", "MF_Replace_Edges_i", "MF_Rem_Edge", "MF_Replace_Vertex", "MF_Rev_EdgeDir", "MR_Replace_Faces", "MR_Replace_Face_i", "MR_Rem_Face", "MR_Rev_FaceDir", "MR_Set_FaceDir", "ME_Replace_Vertex"])
PA = "src/par/"
p("C27", "Partitioning splits a mesh without losing or duplicating ownership",
  "Partitioning a mesh into submeshes by any element-to-part map gives submeshes in which every element is owned by exactly the part it was assigned to, every lower-dimensional entity is owned by exactly one part, ghost layers contain exactly the elements within the requested number of layers of vertex neighbours, and corresponding entities carry equal global IDs, coordinates, classification, attributes and set membership. Gluing the owned entities together gives back the original mesh.",
  ["inputs", "configurations"], "all meshes, all element-to-part maps including disconnected and empty neighbourhoods, all ghost layer counts, with and without attributes",
  "parallel tests use a few regular meshes and partitioners",
  [PA+"MESH_Partition.c", PA+"MESH_BuildSubMesh.c", PA+"MESH_AddGhost.c", PA+"MESH_CopyAttr.c", PA+"MESH_AssignGlobalIDs.c"], [("submesh construction and ghosting", "src/par/MESH_Partition.c, src/par/MESH_AddGhost.c")],
  ["MESH_Partition", "MESH_Get_Partitioning", "M?_PType", "M?_MasterParID", "M?_GlobalID"])
p("C28", "Distributing a mesh over ranks preserves the mesh",
  "Distributing a mesh over any number of ranks, with either partitioner and with ghost layers, gives each element exactly one owner, ghosts that are exact copies of their owner's entity (global ID, geometry, topology, classification, attributes, sets), and entities whose parallel status (interior, overlap, ghost, on partition boundary) agrees with where copies actually exist; the union of the owned parts is the original mesh. The parallel consistency check accepts the result.",
  ["inputs", "configurations"], "all meshes, rank counts, partitioners, ghost layers and attribute contents",
  "tests use fixed meshes on 4 and 8 ranks",
  [PA+"MSTK_Mesh_Distribute.c", PA+"MESH_Partition_and_Send.c", PA+"MESH_SendMesh.c", PA+"MESH_RecvMesh.c", PA+"MESH_BuildConnection.c", PA+"MESH_ParallelAdj.c", PA+"MESH_Parallel_Check.c"], [("send and receive of submeshes", "src/par/MESH_SendMesh.c, src/par/MESH_RecvMesh.c"), ("ghost and overlap lists", "src/par/MESH_BuildGhostList.c")],
  ["MSTK_Mesh_Distribute", "MSTK_Mesh_Read_Distribute", "MESH_Parallel_Check", "MESH_*Ghost*/*Overlap*"])
p("C29", "Weaving independent partition meshes rebuilds the global mesh",
  "Given the pieces of one mesh as separate serial meshes on the ranks, with or without global vertex IDs, weaving identifies exactly the shared entities: each shared vertex, edge and face has one owner and one global ID everywhere, ghosts are added for the requested layers, and the union of owned entities is the original mesh.",
  ["inputs", "configurations"], "all meshes and partitions into non-empty pieces, all supported input kinds, rank counts",
  "tests weave one or two fixed meshes",
  [PA+"MSTK_Weave_DistributedMeshes.c", PA+"MESH_AssignGlobalIDs.c", PA+"MESH_AssignGlobalIDs_point.c", PA+"MESH_BuildConnection.c", PA+"MESH_Parallel_AddGhost.c", PA+"MESH_ConcatSubMesh.c"], [("shared entity matching", "src/par/MESH_AssignGlobalIDs*.c")],
  ["MSTK_Weave_DistributedMeshes"])
p("C30", "Parallel field updates deliver the owner's or the aggregated value everywhere",
  "After a ghost update every ghost entity has its owner's value for each attribute (all types and entity dimensions) or coordinates, and values on owned entities are unchanged; a gather-scatter gives the owner and all its ghosts the same max, min, sum or average over all copies; the edge/face exchange gives each side the other side's value. The result does not depend on message timing.",
  ["inputs", "configurations", "schedules"], "all distributed meshes, attribute types, entity dimensions, values and rank counts, including repeated updates after re-setting values",
  "tests update a few attributes with values derived from global IDs on fixed meshes",
  [PA+"MESH_Update1Attribute.c", PA+"MESH_UpdateAttributes.c", PA+"MESH_GathScat1Attribute.c", PA+"MESH_UpdateVertexCoords.c", PA+"MESH_XchngEdgeFaceAttrib.c"], [("ghost exchange", "src/par/MESH_Update1Attribute.c")],
  ["MESH_UpdateAttributes", "MESH_Update1Attribute", "MESH_GathScat1Attribute", "MESH_UpdateVertexCoords", "MESH_XchngEdgeFaceAttrib"])
p("C31", "Global IDs stay consistent and searchable",
  "Renumbering global IDs of a distributed mesh gives each owned entity of a renumbered type a distinct ID, contiguous from 1 to the global count, equal on every rank holding a copy; lookup by global ID, when enabled, returns exactly the local entity with that ID or nothing.",
  ["inputs", "configurations"], "all distributed meshes, entity types, rank counts; all queried IDs present and absent",
  "tests renumber one fixed mesh",
  [PA+"MESH_Renumber_GlobalIDs.c", B+"Mesh.c"], [("exclusive scan of owned counts and ghost update", "src/par/MESH_Renumber_GlobalIDs.c"), ("sorted global ID lists", "src/base/Mesh.c")],
  ["MESH_Renumber_GlobalIDs", "MESH_*FromGlobalID"])
p("C32", "Parallel mesh files reproduce the distributed mesh",
  "Writing a distributed mesh to per-rank Exodus (Nemesis) files and reading them back on the same number of ranks gives a distributed mesh whose owned entities together form the original mesh with the same blocks, sets and fields; reading a serial Exodus file in parallel gives the same global mesh as reading it on one rank.",
  ["inputs", "configurations"], "all meshes, rank counts and distribution options",
  "tests read fixed files",
  ["src/io/MESH_ExportToExodusII.c", "src/io/MESH_ImportFromNemesisI.c", "src/io/MESH_ImportFromExodusII.c", "src/io/MESH_ReadExodusII_Partial.c"], [("partial read and weave", "src/io/MESH_ReadExodusII_Partial.c"), ("parallel export", "src/io/MESH_ExportToExodusII.c")],
  ["MESH_ExportToFile", "MESH_ImportFromFile"])
p("C33", "Command-line tools convert and check meshes faithfully",
  "Run on one or several processors on any mesh of the supported formats, meshconvert, tri2quad and tet2hex write a file holding what the library calls they stand for would write (the same mesh, partitioned or woven when asked) and exit with a nonzero status when the conversion was not possible; mkstruc writes exactly the structured grid asked for; exoatt adds exactly the fields and sets its text files describe; chkmesh says a mesh is A-OK exactly when every tetrahedron of its decomposition has positive volume.",
  ["inputs", "configurations"], "all meshes, input and output formats, options, attribute and set files and numbers of processors",
  "no tool has a unit test",
  ["utils/meshconvert/", "utils/chkmesh/", "utils/mkstruc/", "utils/tet2hex/", "utils/tri2quad/", "utils/exoatt/"], [("tools", "utils/")],
  ["meshconvert", "chkmesh", "mkstruc", "exoatt"])
p("C34", "The parallel checker accepts exactly consistent distributed meshes",
  "MESH_Parallel_Check on a distributed mesh returns success on every rank if the mesh is consistent, and if a single copy of a shared entity disagrees with its owner (position, classification, global ID, ownership or owner rank) at least one rank reports failure; it always finishes, whatever the entity counts of the ranks.",
  ["inputs", "configurations", "faults"], "all consistent distributed meshes, and all single changed entities of each kind",
  "tests only run the checker on consistent meshes",
  [PA+"MESH_Parallel_Check.c"], [("ghosts sent to their owners and compared", "src/par/MESH_Parallel_Check.c")],
  ["MESH_Parallel_Check"])
p("C35", "Per-rank FLAG X3D, GMV and native files together hold the distributed mesh",
  "Exporting a distributed mesh to FLAG X3D, GMV or the native format writes one file per rank with what that rank holds (nodes, cells, materials, fields, sets), and what joins the files is right: the two sides of an X3D face shared by two ranks name each other, every shared X3D node names the process and number of its master, and GMV files give every copy of an entity the same global ID and owner. Reading X3D files, or GMV files without ghosts, on as many ranks and weaving them gives the distributed mesh again, each shared entity with one owner and the requested ghosts; without weaving each rank gets its piece.",
  ["inputs", "configurations"], "all meshes, partitions into non-empty pieces, vertex ownerships, ghost layers, fields, sets and rank counts",
  "tests import one fixed set of X3D files",
  ["src/io/MESH_ExportToFLAGX3D.c", "src/io/MESH_ImportFromFLAGX3D.c", "src/io/MESH_ExportToGMV.c", "src/io/MESH_ImportFromGMV.c", "src/base/MESH_WriteToFile.c", PA+"MESH_AssignGlobalIDs_point.c"], [("exchange of face numbers across ranks", "src/io/MESH_ExportToFLAGX3D.c"), ("matching with known neighbors", "src/par/MESH_AssignGlobalIDs_point.c")],
  ["MESH_ExportToFile", "MESH_ImportFromFile", "MSTK_Weave_DistributedMeshes"])
p("C36", "Deleting and restoring entities of a distributed mesh keeps it consistent",
  "On a distributed or woven mesh, after any history of deleting owned or ghost entities (kept or not), restoring kept ones, renumbering global IDs and exchanging data, each rank's mesh holds exactly the entities that are not deleted: counts, iteration, ghost and overlap lists, look-ups by local and global ID, adjacency, and each entity's definition, global ID, owner and parallel type are right. As long as every ghost's owner still has the entity, updating attributes or coordinates gives every ghost its owner's value and gather-scatter reduces over the copies that exist; renumbering numbers what exists consecutively, the same on all ranks.",
  ["histories", "inputs"], "all meshes, partitions, ghost layers and histories of deletions and restorations",
  "the tests never delete an entity of a distributed mesh",
  ["src/base/Mesh.c", "src/base/MVertex.c", "src/base/MEdge.c", "src/base/MFace.c", "src/base/MRegion.c", PA+"MESH_ParallelAdj.c", PA+"MESH_Update1Attribute.c", PA+"MESH_GathScat1Attribute.c", PA+"MESH_UpdateVertexCoords.c", PA+"MESH_Renumber_GlobalIDs.c"], [("removal from and return to the ghost and overlap lists", "src/base/Mesh.c"), ("refreshing stale parallel adjacency", PA+"MESH_ParallelAdj.c")],
  ["MV_Delete", "ME_Delete", "MF_Delete", "MR_Delete", "MV_Restore", "ME_Restore", "MF_Restore", "MR_Restore", "MESH_Num_GhostVertices", "MESH_Next_GhostVertex", "MESH_Num_OverlapVertices", "MESH_Next_OverlapVertex", "MESH_Enable_GlobalIDSearch", "MESH_EntityFromGlobalID", "MESH_Update1Attribute", "MESH_GathScat1Attribute", "MESH_UpdateVertexCoords", "MESH_Renumber_GlobalIDs"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P), "properties")
