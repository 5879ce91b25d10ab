prop C08
workload hist
seed 61079772931169985
mode replay
param dim 2
param h2 505
param n 2
param nx 2
param o02 2
end
