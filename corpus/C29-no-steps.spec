prop C29
workload exoin
seed 14897639766105953
mode replay
param dim 3
param n 1
param natt 1
param nx 2
param ny 3
param nz 1
param steps 0
param with_attr 1
end
