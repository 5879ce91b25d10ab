prop C19
workload file
seed 9073217352074737
mode replay
param dim 2
param fmt 6
param mode 1
end
