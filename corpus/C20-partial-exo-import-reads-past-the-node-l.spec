prop C20
workload exo
seed 5358260150349093
mode replay
param dim 2
param heapfill 3
param imode 1
param jit 0
param mode 1
param n 2
param ny 2
end
