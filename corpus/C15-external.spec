prop C15
workload collapse
seed 64841989283013915
mode replay
param dim 3
param jit 0
param n 1
param nx 2
param ny 2
param nz 4
param selp 31
param vk 1
end
