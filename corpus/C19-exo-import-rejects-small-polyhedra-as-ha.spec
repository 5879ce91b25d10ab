prop C19
workload file
seed 69812011617120327
mode replay
param cscale -10
param ctype 3
param dim 3
param fmt 6
param mseed 0
param nx 2
end
