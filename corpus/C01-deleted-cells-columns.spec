prop C01
workload dist
seed 32884009930174701
mode replay
param dim 3
param jit 0
param holes 0
param gaps 44
param method 2
param n 2
param nz 2
end
