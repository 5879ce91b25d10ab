prop C25
workload export
seed 42477200315962542
mode replay
param ctype 1
param dim 2
param fmt 2
param n 1
param rep 1
end
