prop C19
workload file
seed 11389923933932327
mode replay
param attseed 0
param dim 2
param fmt 6
param mode 1
param natt 2
end
