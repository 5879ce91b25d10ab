prop C20
workload exo
seed 41102780638758540
mode replay
param attseed 3
param classn 1
param dim 3
param geosets 1
param mseed 3
param n 2
param nset 5
param with_attr 1
end
