prop C28
workload tools
seed 60468630536574655
mode replay
param fault 0
param n 1
param nx 4
param ny 4
param nz 4
end
