prop C29
workload exoin
seed 47155208531492853
mode replay
param dim 2
param high 1
param n 1
param nx 2
param ny 7
param with_attr 1
end
