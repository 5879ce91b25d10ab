prop C27
workload convert
seed 19855107136006833
mode replay
param dim 3
param infmt 1
param n 2
param nx 7
param ny 1
param nz 2
param par 1
param ring 0
end
