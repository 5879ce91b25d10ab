prop C27
workload convert
seed 5537690089357628
mode replay
param dim 2
param infmt 1
param n 4
param nx 5
param ny 4
param oclass 1
param par 1
param ring 0
end
