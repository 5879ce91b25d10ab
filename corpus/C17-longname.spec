prop C17
workload file
seed 12851962638457569
mode replay
param dim 3
param lname 278
param mode 1
end
