prop C01
workload dist
seed 3795787843994687
mode replay
param dim 2
param gaps 8
param heapfill 4
param method 2
param n 2
param nx 8
param ny 10
param shuffle 600
end
