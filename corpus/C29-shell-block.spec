prop C29
workload exoin
seed 38994734580505768
mode replay
param dim 2
param n 1
param natt 2
param nset 4
param nx 4
param ny 7
param steps 1
param with_attr 1
param wseed 198741
end
