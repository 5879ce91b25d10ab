prop C25
workload export
seed 39679895454108208
mode replay
param dim 2
param fmt 3
param mseed 0
param n 1
param nx 0
param ny 3
param rep 1
end
