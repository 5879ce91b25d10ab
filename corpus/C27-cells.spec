prop C27
workload convert
seed 53714050565178833
mode replay
param dim 2
param infmt 1
param n 4
param nx 7
param ny 1
param oclass 1
param outfmt 1
param par 1
param ring 0
end
