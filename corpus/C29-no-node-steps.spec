prop C29
workload exoin
seed 35045345054994737
mode replay
param dim 2
param n 2
param natt 1
param nx 3
param ny 7
param steps 0
param with_attr 1
end
