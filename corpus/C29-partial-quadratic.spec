prop C29
workload exoin
seed 44777054088928666
mode replay
param bykind 1
param dim 3
param high 1
param imode 1
param n 6
param nx 3
param ny 2
param nz 4
param pmode 1
param with_attr 1
end
