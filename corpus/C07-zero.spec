prop C07
workload hist
seed 4395614305081706
mode replay
param dim 2
param h0 1
param h1 1
param n 2
param nx 3
param ny 2
param o03 1
param o05 3
end
