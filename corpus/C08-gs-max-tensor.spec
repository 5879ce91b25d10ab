prop C08
workload hist
seed 26363506685356667
mode replay
param dim 2
param h2 4
param n 2
param ny 2
param o05 4
param o06 4
end
