prop C20
workload exo
seed 14619526577122216
mode replay
param dim 3
param n 11
param nx 8
param ny 1
param nz 3
param ring2 1
param unpad 1
param weave 1
end
