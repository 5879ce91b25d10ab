prop C27
workload convert
seed 67572409760394065
mode replay
param dim 3
param infmt 1
param n 4
param nx 5
param ny 1
param nz 2
param oclass 1
param stray 1
end
