prop C17
workload file
seed 31272778669430993
mode replay
param mode 1
end
