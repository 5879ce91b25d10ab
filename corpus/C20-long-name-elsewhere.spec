prop C20
workload exo
seed 21826182435396820
mode replay
param attcut 1
param attseed 0
param dim 2
param dropatts 1
param n 2
param names 4
param natt 1
param nblk 2
param nx 5
param ny 6
param with_attr 1
end
