prop C27
workload convert
seed 54976848802227990
mode replay
param dim 3
param n 4
param nx 4
param ny 4
param nz 1
param par 1
param ring 0
param stray 2
end
