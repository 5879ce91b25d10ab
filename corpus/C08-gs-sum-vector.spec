prop C08
workload hist
seed 12025445922742045
mode replay
param dim 2
param h3 4
param n 3
param ny 2
param o00 1
param o01 4
param o02 4
param start 1
end
