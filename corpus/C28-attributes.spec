prop C28
workload tools
seed 42140816590257947
mode replay
param dim 3
param n 1
param nx 2
param ny 3
param nz 3
end
