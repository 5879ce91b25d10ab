prop C15
workload collapse
seed 64057315245920613
mode replay
param ctype 2
param dim 3
param jit 0
param n 2
param ny 3
param nz 2
param ring 1
param selp 13
param selseed 221436
end
