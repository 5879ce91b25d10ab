prop C28
workload tools
seed 42040160824272237
mode replay
param dim 3
param infmt 2
param n 1
param nx 4
param ny 1
param nz 1
param outfmt 2
param prog 3
end
