prop C29
workload exoin
seed 65446450037873088
mode replay
param dim 3
param empty 1
param imode 1
param n 4
param nx 5
param ny 2
param nz 1
param with_attr 1
end
