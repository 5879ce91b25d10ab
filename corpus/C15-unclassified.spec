prop C15
workload collapse
seed 36438085417802930
mode replay
param clsf 4
param dim 2
param jit 0
param n 1
param nx 6
param ny 5
param selp 83
end
