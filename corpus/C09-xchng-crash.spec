prop C09
workload hist
seed 63975722418525933
mode replay
param dim 3
param h0 424
param h1 1
param h2 1
param h3 1
param n 2
param nz 2
param o03 2
end
