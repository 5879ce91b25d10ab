prop C19
workload file
seed 54804459220566498
mode replay
param at_ppm 987784
param attseed 16605
param bufsz 418
param dim 3
param fault 4
param fmt 6
param lname 150
param mode 2
param natt 3
param nset 2
param nx 4
param ny 2
param nz 2
end
