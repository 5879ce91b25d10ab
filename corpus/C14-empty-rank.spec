prop C14
workload hist
seed 60300503248269454
mode replay
param dim 3
param holes 4
param n 3
param nz 2
param o01 16538
param start 1
end
