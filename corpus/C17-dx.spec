prop C17
workload file
seed 7965304612191822
mode replay
param dim 3
param fmt 5
param mode 1
end
