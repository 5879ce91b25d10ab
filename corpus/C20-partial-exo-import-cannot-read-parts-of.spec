prop C20
workload exo
seed 29615460906626022
mode replay
param ctype 4
param dim 3
param imode 1
param mode 1
param n 2
end
