prop C17
workload file
seed 1072212470598535
mode replay
param dim 3
param fmt 1
param mode 1
end
