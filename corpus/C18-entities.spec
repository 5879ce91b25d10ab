prop C18
workload file
seed 47418066903245642
mode replay
param at_ppm 8121
param attseed 0
param dim 2
param fault 2
param len 6
param mode 2
param natt 1
param nx 3
param ny 0
end
