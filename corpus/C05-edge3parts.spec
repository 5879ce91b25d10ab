prop C05
workload weave
seed 621
mode replay
param ctype 1
param dim 3
param n 3
param ny 2
param ring 1
param wseed 1
param wtype 2
end
