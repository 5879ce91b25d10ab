prop C26
workload gmvin
seed 43526690113643394
mode replay
param dim 2
param n 1
param nx 0
param ny 2
param own 846793
param rep 1
end
