prop C25
workload export
seed 56980292794551973
mode replay
param dim 2
param n 1
end
