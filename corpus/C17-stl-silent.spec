prop C17
workload file
seed 18019328866909538
mode replay
param ctype 1
param dim 2
param fmt 3
param mode 1
end
