prop C17
workload file
seed 43099483037362713
mode replay
param dim 2
param fmt 4
param mode 1
end
