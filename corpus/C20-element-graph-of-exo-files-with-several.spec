prop C20
workload exo
seed 68447737436477792
mode replay
param attseed 0
param ctype 3
param dim 3
param imode 1
param mode 1
param mseed 0
param n 2
param nblk 2
param nx 2
param nz 2
end
