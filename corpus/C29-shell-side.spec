prop C29
workload exoin
seed 49005671477636110
mode replay
param attseed 0
param ctype 1
param dim 2
param n 4
param nblk 2
param nset 4
param nx 7
param ny 3
param with_attr 1
param wseed 2
end
