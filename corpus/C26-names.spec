prop C26
workload gmvin
seed 70204390692137383
mode replay
param dim 2
param n 2
param ny 2
param rep 1
param ring 0
end
