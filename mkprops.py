#!/usr/bin/env python3
# Source of properties.jsonl (kept as code so that statements stay easy to edit).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d['anchors']['hook_needed']=hook
    P.append(d)
PAR='src/par/'
p('C01','Distributing a mesh conserves it',
 'When a mesh on one process is partitioned and distributed, every cell of the input mesh is owned by exactly one process and no cell is lost, duplicated or invented. Every copy of every vertex, edge, face and region on every process has exactly the connectivity, face and edge orientation, coordinates and geometric-model classification of the entity of the input mesh it stands for. The partitioner for meshes of columns (method 2) leaves all cells of a column on one process. This holds for every partitioner, number of processes, number of ghost layers and message timing.',
 ['inputs','configurations','schedules'],'for all supported 2D/3D meshes (standard and general polygonal/polyhedral cells), all process counts, all partitions, ghost layers 0 to 3, and every legal MPI delivery order and buffering',
 'The tests distribute one or two small regular meshes on 4 or 8 processes, whatever schedule Open MPI happens to produce, and compare a handful of counts.',
 [PAR+'MSTK_Mesh_Distribute.c',PAR+'MESH_Partition.c',PAR+'MESH_Partition_and_Send.c',PAR+'MESH_SendMesh.c',PAR+'MESH_RecvMesh.c',PAR+'MESH_Send_NonVertexEntities.c',PAR+'MESH_Recv_NonVertexEntities.c',PAR+'MESH_Send_Vertices.c',PAR+'MESH_Recv_Vertices.c',PAR+'MESH_Send_VertexCoords.c',PAR+'MESH_Recv_VertexCoords.c',PAR+'MESH_Get_Partitioning.c',PAR+'MESH_PartitionWithZoltan.c',PAR+'MESH_PartitionWithMetis.c'],
 [('split the mesh into submeshes','MESH_Partition.c: MESH_Partition'),('serialise and rebuild a submesh','MESH_Send_*.c / MESH_Recv_*.c')],
 ['each process\'s mesh after MSTK_Mesh_Distribute returns'])
p('C02','Every shared entity has one owner, one global ID and one agreed master',
 'After distribution every geometric entity (vertex, edge, face, region) has exactly one owning process; all its copies carry the same global ID, different entities of one kind carry different global IDs, and every non-owning copy is labelled a ghost whose recorded master is that owner. An owned entity is labelled as overlapping exactly when some other process holds a copy. Ghost and overlap enumerations, and lookups by global ID, return exactly the entities so labelled.',
 ['inputs','configurations','schedules'],'for all meshes, partitions, process counts, ghost layers and MPI schedules',
 'Existing tests check a few counts on fixed meshes; uniqueness and agreement across all copies must hold for every partition shape (processes meeting at a point, several neighbours, non-contiguous parts).',
 [PAR+'MESH_AssignGlobalIDs.c',PAR+'MESH_BuildConnection.c',PAR+'MESH_LabelPType.c',PAR+'MESH_BuildGhostList.c',PAR+'MESH_BuildPBoundary.c','src/base/Mesh.c','src/base/MEntity.c'],
 [('lowest-rank owner election','MESH_BuildPBoundary.c / MESH_Partition.c'),('ghost/overlap lists','MESH_BuildGhostList.c')],
 ['PType, MasterParID, GlobalID of every entity on every process'])
p('C03','Ghost layers are complete and exact',
 'When a mesh is distributed with r ghost layers, each process holds exactly the cells that can be reached from a cell it owns in at most r steps between cells that share a vertex, together with all their boundary entities, and nothing else; with zero layers exactly its own cells and their boundary entities. Entities are flagged as lying on the partition boundary exactly when they bound owned cells of more than one process.',
 ['inputs','configurations','schedules'],'for all meshes, partitions and process counts, ghost layers 0 to 3, all schedules',
 'Tests count ghosts on a regular grid with one partition shape; corner-only neighbours, three or more processes meeting at an edge, thin parts and unstructured cells are not reached.',
 [PAR+'MESH_AddGhost.c',PAR+'MESH_BuildPBoundary.c',PAR+'MESH_BuildSubMesh.c',PAR+'MESH_ConcatSubMesh.c',PAR+'MESH_Partition.c'],
 [('one-ring ghost construction','MESH_AddGhost.c')],['the set of cells on each process'])
p('C04','Attributes and sets survive distribution',
 'When a mesh is distributed with its attributes, every copy of every entity on every process carries, for each integer, real or multi-component attribute of the input mesh, the value the entity had there (unset reads as zero/absent on both sides), and belongs to exactly the mesh sets it belonged to. Every process ends with the same list of attributes and sets.',
 ['inputs','configurations','schedules'],'for all attribute types, entity kinds, value patterns (including zero and unset values), sets including ones with no member on some process, and every legal MPI schedule and buffering',
 'Tests carry no sets and at most a couple of attributes; empty sets on a process, unset vector values, and rendezvous-mode sends never occur in them.',
 [PAR+'MESH_CopyAttr.c',PAR+'MESH_CopySet.c',PAR+'MESH_Send_Attribute.c',PAR+'MESH_Recv_Attribute.c',PAR+'MESH_Send_AttributeMetaData.c',PAR+'MESH_Recv_AttributeMetaData.c',PAR+'MESH_Send_MSet.c',PAR+'MESH_Recv_MSet.c',PAR+'MESH_Send_MSetMetaData.c',PAR+'MESH_Recv_MSetMetaData.c'],
 [('copy to submeshes','MESH_CopyAttr/MESH_CopySet'),('metadata then values over nonblocking sends','MESH_SendMesh.c')],['attribute values and set membership on each process'])
p('C05','Weaving independent parts rebuilds the one global mesh',
 'When each process holds only its own part of a mesh, weaving the parts together gives every geometrically shared entity one global ID, one owner and an agreed master on all processes, and (with one ghost layer) surrounds each part with exactly the cells of other parts that share a vertex with it, correctly connected, oriented, positioned and classified. This holds whether the parts are matched by coordinates, by pre-assigned vertex global IDs, or with neighbour information.',
 ['inputs','configurations','schedules'],'for all meshes, all ways to cut them into parts, input types 0, 1 and 2, ghost layers 0 and 1, all schedules',
 'Tests weave two fixed four- and eight-part meshes; each rank pair, corner neighbours and arrival orders are sampled once.',
 [PAR+'MSTK_Weave_DistributedMeshes.c',PAR+'MESH_AssignGlobalIDs.c',PAR+'MESH_AssignGlobalIDs_point.c',PAR+'MESH_BuildConnection.c',PAR+'MESH_LabelPType.c',PAR+'MESH_Parallel_AddGhost.c',PAR+'MESH_ConcatSubMesh.c',PAR+'MESH_BuildSubMesh.c',PAR+'MESH_ParallelAdj.c'],
 [('boundary exchange and matching','MESH_AssignGlobalIDs.c'),('ghost cell exchange','MESH_Parallel_AddGhost.c'),('concatenation of received layers','MESH_ConcatSubMesh.c')],['each process\'s mesh after weaving'])
p('C06','Global renumbering yields contiguous, agreed global IDs',
 'After renumbering global IDs of a distributed mesh, the IDs of each renumbered entity kind are exactly 1..N over the N distinct entities, all copies of an entity agree, distinct entities differ, and nothing else about the mesh changes. It completes on every process whatever mixture of owned and ghost entities each process holds.',
 ['inputs','configurations','schedules','histories'],'for all distributed meshes (distributed or woven, with or without ghosts), entity kinds, and schedules, after arbitrary earlier renumberings, updates and deletions that the processes agree on',
 'One test renumbers one mesh once on four processes.',
 [PAR+'MESH_Renumber_GlobalIDs.c'],[('offsets by allgather, ghost IDs by attribute update','MESH_Renumber_GlobalIDs.c')],['GlobalID of all entities'])
p('C07','A ghost update makes every ghost equal to its owner',
 'After an attribute update over a distributed mesh, every ghost copy of every entity has, for each integer, real and multi-component attribute, exactly the value its owner has, including zero, negative, unset-then-set and repeatedly changed values, and the owners\' values are unchanged.',
 ['inputs','schedules','histories','configurations'],'for all distributed meshes, attribute types, entity kinds, value histories (with entities deleted on all processes in between) and schedules',
 'Tests update strictly positive values once on regular meshes under one schedule.',
 [PAR+'MESH_Update1Attribute.c',PAR+'MESH_UpdateAttributes.c',PAR+'MESH_ParallelAdj.c'],[('owner-to-ghost send of overlap values','MESH_Update1Attribute.c')],['attribute values on all copies'])
p('C08','Gather-scatter combines the values of all copies',
 'A gather-scatter over an attribute leaves on every copy of a shared entity the maximum, minimum, sum or (real values) average, as requested, of the values that all copies of that entity held before the call, for integer, real and multi-component attributes (maximum and minimum by magnitude for these); all copies agree afterwards and entities with a single copy keep their value.',
 ['inputs','schedules','configurations'],'for all distributed meshes, operations, attribute types, values (any sign, zero) and schedules',
 'One test gathers positive face values on a 2D mesh.',
 [PAR+'MESH_GathScat1Attribute.c'],[('ghosts to owner, reduce, owner to ghosts','MESH_GathScat1Attribute.c')],['attribute values on all copies before and after'])
p('C09','Edge/face exchange gives each side the other side\'s value',
 'After an exchange of an edge attribute (2D) or face attribute (3D), each entity on the boundary between two processes holds on either side the value the other process held before the call, whatever the value; every other owned entity keeps its value, and other ghost copies have either their own or their owner\'s former value.',
 ['inputs','schedules','configurations'],'for all distributed meshes, attribute types, values including zero, and schedules',
 'One test exchanges one positive-valued attribute on one 2D mesh.',
 [PAR+'MESH_XchngEdgeFaceAttrib.c'],[('pairwise exchange along partition boundary entities','MESH_XchngEdgeFaceAttrib.c')],['attribute values on both sides'])
p('C10','Ghost vertices follow their owner\'s coordinates',
 'After a vertex-coordinate update over a distributed mesh every ghost vertex has bit-for-bit the coordinates of its owner, and owned vertices are unmoved.',
 ['inputs','schedules','histories','configurations'],'for all distributed meshes, all displacement patterns and histories (entities deleted on all processes included), all schedules',
 'One test moves the vertices of one mesh once.',
 [PAR+'MESH_UpdateVertexCoords.c'],[('owner-to-ghost coordinate send','MESH_UpdateVertexCoords.c')],['coordinates on all copies'])
p('C11','Results do not depend on message timing or on memory contents',
 'For the same input and number of processes, every parallel operation leaves exactly the same mesh, ownership, global IDs and attribute values on each process, whatever legal order the messages, collectives and processes progress in and whatever the heap and stack held before.',
 ['schedules','configurations'],'for every parallel workload and any two legal schedules, buffering modes, heap layouts and initial memory contents',
 'Tests see one schedule per run and never compare two.',
 [PAR,'src/base/','src/util/'],[('source- and tag-specific receives, ordered processing of neighbours','src/par/*.c')],['full canonical state of every process at the end of the run'])
p('C12','Parallel operations always complete',
 'Every collective operation of the library on a distributed mesh completes on all processes within a bounded number of steps under every legal MPI behaviour: no process waits for a message that is never sent, no two processes wait for each other however little the MPI layer buffers, all processes enter matching collective calls, and no message is left unreceived and no request uncompleted.',
 ['schedules','configurations','inputs'],'for all workloads, meshes (including processes with few or no shared entities) and every legal choice of eager or rendezvous delivery, delay, stall and collective skew',
 'Real runs use eager delivery of small messages, which hides send-send deadlocks, unmatched messages and skewed collectives.',
 [PAR],[('neighbour tables exchanged before communication','MESH_ParallelAdj.c'),('ordered send/recv between ranks','MESH_Update1Attribute.c, MESH_AssignGlobalIDs*.c')],['simulator: blocked ranks, unmatched messages, outstanding requests'])
p('C13','Message buffers are respected until completion',
 'Data handed to a nonblocking send is neither freed nor changed before the send completes, a posted receive buffer is neither freed nor read for data before the receive completes, every receive buffer is large enough for the message it gets with the same datatype, and no heap block is overrun, used after free or freed twice by a parallel operation.',
 ['schedules','configurations','inputs'],'for every parallel workload and every legal completion time of each message',
 'With eager delivery the transport has copied small messages before the call returns, so tests cannot see a buffer freed or changed too early.',
 [PAR+'MESH_SendMesh.c',PAR+'MESH_Send_MSet.c',PAR+'MESH_Update1Attribute.c',PAR+'MESH_UpdateVertexCoords.c',PAR+'MESH_Parallel_AddGhost.c',PAR+'MESH_XchngEdgeFaceAttrib.c'],[('request and pointer-to-free lists released after Waitall','MESH_SendMesh.c')],['simulator: request and heap records'])
p('C14','The parallel checker accepts consistent and rejects inconsistent meshes',
 'The parallel consistency check returns success on every process for every consistently distributed mesh, and reports failure on at least one process when the coordinates, global ID, owner, parallel label or model classification of one copy of a shared entity was made to disagree with the other copies; in both cases it completes on all processes.',
 ['inputs','schedules','fault_sequences'],'for all distributed meshes (also after deletions that the processes agree on), single corruptions of one copy of a shared entity, and schedules',
 'Tests only ever call it on good meshes.',
 [PAR+'MESH_Parallel_Check.c'],[('owner/ghost comparison by message exchange','MESH_Parallel_Check.c')],['return value on each process'])
p('C15','Independent identical edge collapses keep replicas identical',
 'Take a distributed mesh made of columns of cells in which no column is split between processes and at least one edge per vertex column is left. When every process collapses the same set of column edges it holds copies of, each in an order of its own, towards the vertex with the lower global ID or with topological conformity, and deletes what is reported as deleted, then without further communication all processes agree: every entity that is left has the same global ID, connectivity, classification, master and kind of ghost/overlap label wherever it is held, none is lost, no two coincide, each comes from the entities merged into it (so does its set membership), and a value exchange and a renumbering still work. Of merged edges or faces the one on the model entity of lower dimension is kept, among those of equal dimension the one with the lower global ID; where conformity is asked for, the vertex on the lower-dimensional model entity is kept, and a collapse that would keep the other one, or merge vertices on different model entities of the same dimension, is refused and changes nothing. The same holds on one process with undistributed meshes; there a collapse free to choose keeps an external vertex rather than an internal one, and in meshes without classification an external edge (2D) or face (3D) is kept rather than an internal one.',
 ['histories','schedules','inputs'],'for all such meshes with known classification, selections of edges, local orders of the collapses, partitions and schedules',
 'One test collapses the zero-length edges of one 2D mesh, and repairs differences between processes by renaming ghosts afterwards.',
 ['src/mod/ME_Collapse.c','src/mod/MEs_Merge_FN.c','src/mod/MFs_Merge_FN.c','src/base/MF_Edge_Funcs_F1F3.c'],[('global-ID and classification tie-breaks when choosing the surviving entity','ME_Collapse.c')],['entities held by more than one process','set and attribute values of the survivors'])
p('C16','A mesh written successfully reads back the same',
 'If writing a mesh to a native file reports success and the file is not damaged afterwards, reading it back succeeds and gives the same vertices, edges, faces, regions, connectivity, orientation and classification, and the same attributes with the same integer, real, vector and tensor values, coordinates and real values bit for bit. A mesh written in a reduced representation (R1, R4; R2 in 2D) and read as such or into a full one gives back the same vertices and cells, the attributes on them and the vertex adjacencies stored. This also holds when some writes or reads complete only partially and are continued.',
 ['inputs','fault_sequences','configurations'],'for all meshes, representations, attribute kinds and value ranges, and all patterns of short reads, short writes and interrupted calls',
 'Tests read fixed files and never write and reread native files under I/O faults.',
 ['src/base/MESH_WriteToFile.c','src/base/MESH_InitFromFile.c'],[('text writer and reader','MESH_WriteToFile.c / MESH_InitFromFile.c')],['mesh read back from the simulated disk'])
p('C17','A failed write is never reported as success',
 'If storing any byte of a mesh file fails (full disk, I/O error, failing open or close), the writing function reports failure, for the native, GMV, FLAG X3D, OFF, STL and OpenDX formats (Exodus II: see C19), and it does not crash. Whether it fails or succeeds, it leaves the in-memory mesh, its sets and its list of attributes unchanged and no file open, so that writing again once the fault is gone succeeds and gives the same file as if there had been no fault.',
 ['fault_sequences','inputs','crash_points'],'for these output formats, all meshes, and every point at which the storage may fail',
 'No test injects a storage fault.',
 ['src/base/MESH_WriteToFile.c','src/io/MESH_ExportToFile.c','src/io/MESH_ExportToGMV.c','src/io/MESH_ExportToOFF.c','src/io/MESH_ExportToSTL.c','src/io/MESH_ExportToDXBin.c','src/io/MESH_ExportToFLAGX3D.c'],[('return status of the writers','MESH_Export*.c')],['return value and file contents'])
p('C18','A damaged or unreadable mesh file is never silently accepted',
 'If a native mesh file is cut short at any byte other than inside its last number (crash of the writer, lost tail), has blocks of it or its tail replaced by zero bytes, or a read fails part-way, reading it either reports failure or yields a mesh with exactly the entities, coordinates, connectivity and classification that were written, with right values in those attributes it has; it never hangs, crashes or reports success with a mesh that lacks or garbles entities.',
 ['crash_points','fault_sequences','inputs'],'for all meshes and representations, every truncation point, and every read at which an I/O error may occur',
 'Tests read only complete files.',
 ['src/base/MESH_InitFromFile.c'],[('status checks after each field','MESH_InitFromFile.c')],['return value and resulting mesh'])
p('C19','Exodus II files round-trip and fail loudly',
 'If exporting a mesh to Exodus II on one process reports success, importing the file gives the same cells, coordinates, element blocks, node, side and element sets and the same real, vector and tensor variables on vertices and cells; with geometry sets requested the file also gives, and only then, one set of nodes or sides per model vertex, edge or bounding face. The export leaves the mesh, its sets and its attributes as they were. If a write or read fails with an error, the export reports failure, and the import reports failure or gives exactly the data written; neither crashes.',
 ['inputs','fault_sequences','configurations'],'for all surface and solid meshes of standard, polygonal and polyhedral cells, block numberings, sets and variables, and every write or read that may fail with an error code',
 'Tests round-trip a few fixed meshes with no faults.',
 ['src/io/MESH_ExportToExodusII.c','src/io/MESH_ReadExodusII_Serial.c'],[('status checks on Exodus calls','MESH_ExportToExodusII.c / MESH_ReadExodusII_Serial.c')],['return values, exported mesh and imported mesh'])
p('C20','Parallel Exodus II files restore the distributed mesh',
 'When all processes export their part of a distributed mesh to per-process Exodus II files, the export leaves their meshes unchanged, and importing the files gives each process its cells, blocks, sets and variables again; with weaving the processes hold the same distributed mesh: every cell owned by the process that wrote it, agreed global numbering of shared entities and the requested ghost layer. Importing one serial Exodus II file on several processes, distributed by the first process or read in part by each, likewise gives each cell exactly one owner and the same geometry, blocks, sets and variables.',
 ['schedules','inputs','configurations'],'for all distributed 2D/3D meshes, process counts, import options and schedules of the processes\' file and message operations',
 'One test imports one fixed set of files.',
 ['src/io/MESH_ExportToExodusII.c','src/io/MESH_ImportFromNemesisI.c','src/io/MESH_ImportFromExodusII.c','src/io/MESH_ReadExodusII_Partial.c','src/io/ExodusII_GetElementGraph.c','src/par/MSTK_Weave_DistributedMeshes.c'],[('per-process files with node/element maps','MESH_ExportToExodusII.c'),('read then weave','MESH_ImportFromNemesisI.c'),('partition the element graph, read own part','MESH_ImportFromExodusII.c')],['each process\'s mesh after import'])
p('C21','Concurrent markers never collide',
 'In the marker-enabled build, no two markers that are held at the same time, by any threads, are the same, a freed marker can be handed out again, and asking for a marker fails cleanly instead of handing out one in use when all are taken.',
 ['schedules','histories'],'for all interleavings of threads acquiring, using and releasing markers',
 'Tests are single-threaded and the default build has markers off.',
 ['src/base/MSTK.c','src/base/MEntity.c'],[('mutex around the marker bit set','MSTK.c: MSTK_GetMarker/MSTK_FreeMarker')],['marker values handed out'])
p('C22','The marker-enabled build behaves like the default build',
 'Built with markers enabled, everything the library does in parallel and with files (distribution, weaving, ghost layers, updates, migration, set and attribute exchange, native and Exodus II files, edge collapses on replicated meshes) meets the same requirements as the default build, from the same inputs and under the same schedules and faults, and leaves no marks on the entities of the mesh when it is done.',
 ['inputs','schedules','faults','histories'],'for all inputs and schedules of the parallel and file operations, with MSTK_USE_MARKERS defined',
 'The tests build and run one configuration only; the alternative code under MSTK_USE_MARKERS is not compiled.',
 ['src/par/','src/base/MSet.c','src/io/','src/hilev/'],[('alternative code under #ifdef MSTK_USE_MARKERS','src/par/MESH_AddGhost.c, MESH_BuildSubMesh.c, MESH_XchngEdgeFaceAttrib.c, src/base/MSet.c, src/io/MESH_ExportToExodusII.c, MESH_ReadExodusII_*.c')],['all state checked by the other properties'])
p('C23','Threads may query one mesh at the same time',
 'When several threads query the same unmodified mesh at once (adjacencies, coordinates, iteration, attributes, set membership, common entities, directions, classification; representation with all entities stored), each gets the same answers as if it were alone.',
 ['schedules','inputs'],'for all interleavings of read-only queries of several threads on one mesh, down to single memory accesses',
 'Tests are single-threaded.',
 ['src/base/','src/util/'],[('no hidden mutable state in queries','src/base/*_F1.c, *_F4.c, src/util/List.c')],['mesh entities','lists'])
p('C24','Operations keep to their communicator',
 'When the processes are split into groups, each with a communicator of its own (any subset of the processes, ranked in any order), what a group does with its mesh (distribution, weaving, updates, renumbering, checks, migration, set and attribute exchange, parallel Exodus II files, edge collapses) gives the result it gives when the group is alone, and completes whatever the other processes do meanwhile (nothing, or such operations on meshes of their own, at any speed) and whatever other meshes its processes handle before and in between, on this communicator or on others in which they have other ranks; messages of the program on other communicators reach who they were meant for.',
 ['schedules','configurations','histories'],'for all ways of choosing and ordering the group, all operations, all that the other processes do, and every legal MPI schedule and buffering',
 'The tests use one communicator, that of all processes, and one mesh.',
 ['src/par/','src/hilev/','src/io/MESH_ExportToExodusII.c','src/io/MESH_ImportFromExodusII.c','src/io/MESH_ImportFromNemesisI.c'],[('ranks, masters and tags are relative to the communicator passed','src/par/*.c (comm argument)'),('per-mesh parallel adjacency','src/base/Mesh.c')],
 ['the meshes of the group','completion of the other processes'])
p('C25','Exported files say what the mesh is',
 'A mesh exported to GMV, FLAG X3D, STL or OFF is described completely and correctly by the file: its vertices with their coordinates, its cells with their nodes or faces in the right order and orientation, materials, the attributes the format can hold and the caller asked for, and the lists of set members, with counts and references that fit what is in the file - also if entities were deleted before. If the mesh is distributed, the files of the processes fit together: for X3D each cell is in one file, each side between two processes refers to the same side in the other file and back, and shared nodes agree on their master; for GMV each file describes the process\' part with its global IDs and owners. The mesh is left unchanged.',
 ['inputs','configurations','schedules'],'for all meshes (2D and 3D, standard and general cells, deleted entities), attributes, sets and options of these exporters, all partitions and process counts, every legal MPI schedule, short writes',
 'No test reads an exported GMV, X3D, STL or OFF file; references between the files of different processes depend on messages between them.',
 ['src/io/MESH_ExportToGMV.c','src/io/MESH_ExportToFLAGX3D.c','src/io/MESH_ExportToSTL.c','src/io/MESH_ExportToOFF.c','src/io/MESH_ExportToFile.c','src/par/MESH_XchngEdgeFaceAttrib.c'],[('IDs of the entities in the file','vidatt/ridatt... attributes in the exporters'),('side IDs of the opposite process','MESH_ExportToFLAGX3D.c: oppatt, MESH_XchngEdgeFaceAttrib')],
 ['the files written'])
p('C26','GMV files can be read back',
 'Importing a GMV file gives the mesh it describes: exported by MSTK or written by another program (nodes by vertex or by coordinate; named, general, vface2d/vface3d cells or faces with cells; comments, IDs), by one process or by several each with its own file, in the full and reduced representations. Vertices, cells with their orientation, the edges and faces they share (each once), upward adjacencies, materials, cell colors, node constraints and variables are those of the file; parts read by several processes are woven together with owners, global IDs and ghosts as after weaving. A file that is cut short, cannot be read completely, is no GMV file or a binary one, or refers to nodes it does not have is reported, never taken for a whole one, and never makes the import run on without end.',
 ['inputs','crash points','faults','schedules'],'for all meshes, layouts of the file, attributes, partitions and process counts, all lengths a file can be cut to, read errors and short reads, and every legal MPI schedule',
 'The tests import a few fixed GMV files, on one process, and look at few of their contents; none imports what the exporter writes, or a damaged file.',
 ['src/io/MESH_ImportFromGMV.c','src/io/MESH_ExportToGMV.c','src/io/MESH_ImportFromFile.c','src/par/MSTK_Weave_DistributedMeshes.c','src/base/MR_Vertex_Funcs_FNR3R4.c'],[('node order of the standard cells','rtmpl in importer and exporter'),('shared sides of vface cells','opp_fid'),('woven parts','MSTK_Weave_DistributedMeshes at the end of the importer')],
 ['the imported mesh','the return value'])
p('C27','meshconvert converts the whole mesh or says that it failed',
 'The program meshconvert, run on any number of processes, writes files that describe the mesh it was given. On one process the output has the cells, orientation, attributes and sets that both formats can hold. A serial input on several processes is partitioned, every cell in some process\' file; the files of several processes are found by the names the library writes and are woven together. Cells have the same material in the output exactly if they had in the input (with --classify=2, materials of surface meshes may be split), whichever options are given. Unless it is told not to (--classify=0), or the input has a classification, entities surrounded by cells of one material are classified on the model entity of these cells, those on the boundary of the mesh or between materials on model entities of lower dimension. If a file cannot be read, opened or written completely, the program ends with a failure status; it never reports success with an output that is missing, cut short or unreadable, and it ends successfully if nothing failed.',
 ['inputs','configurations','faults','schedules'],'for all meshes, pairs of formats (native, GMV, Exodus II; also OFF, STL, X3D as outputs), options, partitions and process counts, full disks, read, write, open and close errors, and every legal MPI schedule',
 'No test runs the program.',
 ['utils/meshconvert/src/meshconvert.c','src/io/','src/base/MESH_WriteToFile.c','src/base/MESH_InitFromFile.c','src/hilev/MESH_BuildClassfn.c','src/hilev/MESH_CheckTopo.c','src/par/MSTK_Mesh_Distribute.c','src/par/MSTK_Weave_DistributedMeshes.c'],[('exit status','ok of the export in main()'),('names of the files of a process','parfilename, importers and exporters'),('classification before partitioning','prepareMesh')],
 ['exit status of every process','the files written'])
p('C28','mkstruc, tri2quad, tet2hex and exoatt do their job or say that they failed',
 'A utility program that ends successfully has written a file, readable in its format, with exactly the mesh it promises. mkstruc: the structured mesh of the box and numbers of cells asked for, every corner, edge, side and the interior of the box a model entity of its own on which the vertices, edges, faces and cells lying there are classified. tri2quad and tet2hex: every triangle split into three quadrilaterals, every tetrahedron into four hexahedra, which meet at the midpoints of edges, faces and cells, keep the orientation, the material and (in the native format) the classification of what they are part of. exoatt (one process): the mesh of the input with exactly the attributes and sets the given text files specify. If the input cannot be read or has cells of another kind, a text file ends early, the output cannot be written completely or not in the format its name says, the program ends with a failure status; if nothing failed it ends successfully.',
 ['inputs','faults','configurations'],'for all boxes and numbers of cells, triangle and tetrahedron meshes, attributes and sets, pairs of formats (native, GMV, Exodus II), full disks, read, write, open and close errors and files cut off anywhere',
 'One test runs exoatt and looks at the sets of one mesh; none runs the others.',
 ['utils/mkstruc/src/mkstruc.c','utils/tri2quad/src/tri2quad.c','utils/tet2hex/src/tet2hex.c','utils/exoatt/src/exoatt.c','src/hilev/MESH_Gen_Structured.c','src/hilev/MESH_Tri2Quad.c','src/hilev/MESH_Tet2Hex.c','src/io/','src/base/MESH_WriteToFile.c','src/base/MESH_InitFromFile.c'],[('exit status','ok of reading and writing in main()'),('templates of the split','MESH_Tri2Quad.c, MESH_Tet2Hex.c'),('classification templates','MESH_Gen_Structured.c'),('reading the text files','import_attributes, import_sets in exoatt.c')],
 ['exit status','the file written'])
p('C29','Exodus II files of other programs are read as they are',
 'Importing an Exodus II file gives the mesh it describes, also if another program wrote it: blocks of triangles, quadrilaterals, shells, polygons, tetrahedra, pyramids, wedges, hexahedra and polyhedra in any order and mixture (several materials, named or not, empty ones too), with the usual names of these types, cells numbered and turned in any way the format allows, nodes in any order and with any maps. Every cell is there once with its vertices, orientation and block, adjacencies are consistent, the sets of nodes, sides and elements have exactly their members (by the side numbers of the format, a side named by either or both of its cells), and variables have the values of the first step, also those defined on some blocks only or never. One process or several that divide the mesh among them, from a serial or partial read, get the same. So do several that read one file each of a mesh cut beforehand, whose maps say which nodes and cells are which; every cell belongs to the process whose file it is in. A file with elements MSTK does not know (quadratic ones) is refused, never read as another mesh.',
 ['inputs','configurations','schedules'],'for all meshes, ways to write them, sets, variables, partitions and process counts, and every legal MPI schedule',
 'The tests import a few fixed Exodus II files; none has shells with side sets, variables on some blocks, empty blocks or pyramids.',
 ['src/io/MESH_ReadExodusII_Serial.c','src/io/MESH_ReadExodusII_Partial.c','src/io/ExodusII_GetElementGraph.c','src/io/MESH_ImportFromExodusII.c','src/io/MESH_ImportFromNemesisI.c'],[('templates of the faces of standard cells','exo_rfverts in the readers'),('directions of the faces of polyhedra','reliable_rfdirs in MESH_ReadExodusII_Serial.c'),('numbers of sides','ss_side_list in the readers'),('variables by block','vartab in the readers')],
 ['the imported mesh','the return value'])
# Properties outside the technique
def na(id,title,statement,text,files,mech):
    p(id,title,statement,['inputs','histories'],text,'The tests sample a few fixed meshes.',files,mech)
na('N01','All representations answer adjacency queries alike','For the same mesh, every adjacency query gives the same answer in every mesh representation.','all meshes, representations, queries',['src/base/'],[('per-representation method tables','src/base/*_jmp')])
na('N02','Mesh modification keeps the mesh topologically valid','Splits, joins, merges and swaps of entities keep the mesh conforming and its upward and downward adjacencies mutually consistent.','all meshes and operation sequences',['src/mod/'],[('local reconnection','src/mod/*.c')])
na('N03','Geometric model classification is derived correctly','Building classification for a mesh gives each entity the lowest-dimensional model entity it lies on, and checking topology accepts exactly the consistent meshes.','all meshes',['src/hilev/'],[('BuildClassfn','src/hilev/MESH_Build*Classfn.c')])
na('N04','Entity sets follow set algebra','Union, intersection and subtraction of mesh sets give exactly the set-theoretic result without duplicates.','all sets',['src/base/MSet.c','src/util/List.c'],[('List based sets','MSet.c')])
na('N05','Copying or renumbering a mesh preserves it','A copy of a mesh, or a mesh with locally renumbered entities, is isomorphic to the original.','all meshes',['src/base/MESH_Copy.c','src/hilev/MESH_Renumber.c'],[('MESH_Copy','MESH_Copy.c')])
na('N06','Structured generation gives the requested grid','Generating a structured mesh gives nx*ny(*nz) cells filling the requested box.','all sizes',['src/hilev/MESH_Gen_Structured.c'],[('loops','MESH_Gen_Structured.c')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
for d in P:
    assert len(d['title'])<=80,d['title']
