prop C19
workload file
seed 17781545785722729
mode replay
param dim 3
param fmt 6
param lname 105
end
