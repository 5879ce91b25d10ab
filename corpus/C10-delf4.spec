prop C10
workload hist
seed 58111962961122999
mode replay
param ctype 1
param dim 2
param h2 1
param heapfill 4
param holes 2
param mseed 3
param n 14
param nx 3
param ny 6
param o00 35100
param o04 4
param rep 1
param start 1
param wmode 2
param wseed 952109
end
