prop C17
workload file
seed 14760305523870198
mode replay
param ctype 2
param dim 2
param fmt 5
param gaps 44
param heapfill 4
param mode 1
param mseed 1
param nx 3
param ny 6
param shuffle 4
end
