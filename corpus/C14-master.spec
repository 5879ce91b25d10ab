prop C14
workload hist
seed 9480510916826281
mode replay
param ctype 3
param dim 3
param mseed 4
param n 3
param nx 4
param ny 0
param nz 3
param o00 1
param o01 1
param o02 1
param o03 10250
param pmode 4
param pseed 329576
param ring 1
end
