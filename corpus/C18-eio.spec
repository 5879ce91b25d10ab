prop C18
workload file
seed 4207225650721954
mode replay
param at_ppm 780323
param dim 3
param fault 4
param jit 1
param mode 2
param mseed 0
end
