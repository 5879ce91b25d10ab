prop C26
workload gmvin
seed 11593120111082053
mode replay
param dim 3
param n 1
param nz 2
param opt1 1
end
