prop C20
workload exo
seed 41596581110863644
mode replay
param attseed 3
param ctype 3
param dim 3
param imode 1
param mode 1
param mseed 0
param n 2
param nblk 2
param ny 2
param nz 4
param shuffle 2
end
