prop C01
workload dist
seed 41992214088942051
mode replay
param dim 2
param gaps 44
param n 2
param nx 2
param ny 2
end
