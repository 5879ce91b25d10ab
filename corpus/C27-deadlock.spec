prop C27
workload convert
seed 43342671016040408
mode replay
param dim 2
param infmt 1
param n 3
param nx 4
param ny 2
param outfmt 2
param par 1
param ring 0
end
