prop C20
workload exo
seed 65638791532214115
mode replay
param attseed 41476
param dim 3
param n 2
param natt 1
param nz 2
param with_attr 1
end
