prop C05
workload weave
seed 54
mode replay
param dim 2
param n 2
param nx 2
param ring 1
param wseed 3
param wtype 2
end
