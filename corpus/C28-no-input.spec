prop C28
workload tools
seed 30956586378845942
mode replay
param ctype 2
param dim 3
param fault 3
param n 1
param nx 3
param ny 1
param nz 2
param outfmt 1
param prog 2
end
