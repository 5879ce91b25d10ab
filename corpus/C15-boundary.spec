prop C15
workload collapse
seed 6642465122996220
mode replay
param dim 2
param jit 0
param n 1
param nx 4
param ny 4
param rep 1
param selp 39
param selseed 4
end
