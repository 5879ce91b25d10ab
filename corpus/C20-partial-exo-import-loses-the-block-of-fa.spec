prop C20
workload exo
seed 29631809209630110
mode replay
param dim 2
param imode 1
param mode 1
param n 2
param ny 2
end
