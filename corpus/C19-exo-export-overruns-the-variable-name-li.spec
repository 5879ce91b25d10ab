prop C19
workload file
seed 17488857685371919
mode replay
param attseed 2
param dim 2
param fmt 6
param heapfill 4
param manyc 1
param mode 1
param natt 3
end
