prop C18
workload file
seed 49951637201119126
mode replay
param at_ppm 613594
param dim 2
param fault 4
param jit 0
param mode 2
param natt 1
param nx 2
end
