prop C19
workload file
seed 6462514326034302
mode replay
param dim 2
param fmt 6
param jit 1
param mseed 0
end
