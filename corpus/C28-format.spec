prop C28
workload tools
seed 1059279197935864
mode replay
param ctype 2
param dim 3
param n 1
param nx 3
param ny 2
param nz 2
param outfmt 3
param prog 2
end
