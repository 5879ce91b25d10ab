prop C19
workload file
seed 34785552326441812
mode replay
param dim 2
param fmt 6
param jit 0
param zoff 1
end
