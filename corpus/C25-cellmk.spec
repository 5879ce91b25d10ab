prop C25
workload export
seed 37655404106058199
mode replay
param dim 3
param n 1
end
