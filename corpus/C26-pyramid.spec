prop C26
workload gmvin
seed 7919
mode replay
param ctype 4
param dim 3
param fault -1
param n 1
end
