prop C20
workload exo
seed 7526681195922935
mode replay
param attseed 63887
param dim 2
param n 2
param natt 2
param nset 1
param nx 2
param ny 3
param ring 1
param with_attr 1
end
