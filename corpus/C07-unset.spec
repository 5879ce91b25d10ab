prop C07
workload hist
seed 11529076947308348
mode replay
param dim 2
param h0 625
param n 2
param ny 4
param o03 2
param start 1
end
