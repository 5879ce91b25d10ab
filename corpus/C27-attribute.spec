prop C27
workload convert
seed 19107182690230307
mode replay
param attseed 1
param dim 3
param n 4
param natt 1
param nx 2
param ny 3
param nz 2
param outfmt 2
param par 1
param ring 0
param shuffle 324
param with_attr 1
end
