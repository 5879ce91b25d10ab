prop C27
workload convert
seed 20492278998097828
mode replay
param dim 2
param n 11
param nx 4
param ny 6
param par 1
param ring 0
end
