prop C27
workload convert
seed 34996506131829221
mode replay
param attseed 6700
param dim 2
param holes 12
param infmt 2
param method 1
param n 4
param nblk 3
param nx 4
param ny 6
param oclass 2
end
