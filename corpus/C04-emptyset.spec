# property C04 (Attributes and sets survive distribution)
# C12/deadlock: [setup] no process can go on: rank 0 in MSTK_Mesh_Distribute waits in MPI_Allgather (root -1, collective no. 1); rank 1 in MSTK_Mesh_Distribute waits in MPI_Allgather (root -1, collective no. 1); rank 2 in MSTK_Mesh_Distribute waits in MPI_Recv from 0 tag 2;
# ended: deadlock; last message of the library: 
# found with seed 37729326190659268; replay with: python3 check.py --replay /tmp/mutev/replays/C04-e74ee6041d.spec
prop C04
workload dist
seed 37729326190659268
mode replay
param attseed 62106
param del 0
param dim 2
param heapfill 4
param heapseed 342
param holes 0
param method 0
param mseed 330160
param n 3
param natt 3
param nset 2
param nx 1
param ny 3
param nz 0
param pseed 326795
param rep 0
param ring 0
param shuffle 0
param with_attr 1
dec rdv/2/0/18 1
end
