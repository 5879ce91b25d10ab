prop C19
workload file
seed 37522639017965066
mode replay
param dim 3
param fmt 6
param names 4
param natt 1
end
