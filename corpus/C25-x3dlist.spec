prop C25
workload export
seed 3927917885816928
mode replay
param classn 0
param dim 3
param fmt 1
param gaps 3
param n 1
param nx 0
param ny 4
param nz 2
end
