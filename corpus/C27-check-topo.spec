prop C27
workload convert
seed 69801330542315313
mode replay
param classn 1
param dim 3
param n 1
param nx 2
param ny 3
param nz 3
param otopo 1
end
