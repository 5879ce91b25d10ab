prop C25
workload export
seed 10509827085130450
mode replay
param attseed 0
param classn 0
param dim 3
param fmt 1
param n 1
param natt 2
end
