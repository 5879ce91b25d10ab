prop C29
workload exoin
seed 49717714939225661
mode replay
param attseed 0
param ctype 1
param dim 2
param n 1
param natt 3
param nblk 2
param nset 2
param nx 5
param ny 1
param steps 1
param table 1
param with_attr 1
end
