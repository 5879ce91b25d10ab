prop C20
workload exo
seed 27758891605274639
mode replay
param attcut 1
param dim 2
param dropatts 1
param n 11
param natt 1
param nx 5
param ny 5
param shuffle 1
param with_attr 1
end
