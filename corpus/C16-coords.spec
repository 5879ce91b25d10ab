prop C16
workload file
seed 8468333925732669
mode replay
param cscale -13
param dim 2
param mseed 0
param ny 3
end
