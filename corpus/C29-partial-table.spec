prop C29
workload exoin
seed 14463234613814475
mode replay
param attseed 1
param dim 3
param n 4
param natt 2
param nset 3
param nx 2
param ny 4
param nz 3
param steps 1
param table 1
param with_attr 1
end
