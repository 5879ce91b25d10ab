prop C08
workload hist
seed 30655324280061590
mode replay
param dim 2
param h0 1
param h1 1
param n 2
param ny 2
param o00 1
param o01 33940
param ring 1
end
