prop C25
workload export
seed 45059544931071115
mode replay
param classn 1
param dim 3
param fmt 1
param mseed 0
param n 1
end
