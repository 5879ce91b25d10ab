prop C01
workload dist
seed 71293792531512771
mode replay
param dim 3
param n 1
param rep 1
end
