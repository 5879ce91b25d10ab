prop C26
workload gmvin
seed 7
mode replay
param dim 2
param n 1
param nx 2
param ny 2
param fault 0
param at_ppm 999000
end
