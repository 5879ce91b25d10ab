prop C15
workload collapse
seed 925875323525609
mode replay
param dim 2
param jit 0
param n 1
param nx 2
param ny 4
param ordseed 105285
param selp 80
param selseed 537903
param topo 1
end
