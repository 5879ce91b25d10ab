prop C27
workload convert
seed 1287696928923810
mode replay
param at_ppm 2
param dim 2
param fault 0
param n 1
param nx 3
param ny 3
end
