prop C20
workload exo
seed 43155745390223285
mode replay
param dim 2
param imode 1
param mode 1
param n 2
param ny 2
param zoff 1
end
