prop C07
workload hist
seed 12176949862949187
mode replay
param ctype 1
param dim 2
param gaps 47
param mseed 0
param n 2
param nx 2
param o00 1
param o01 48314
param o02 34604
param o04 54857
param rep 1
param ring 1
param start 1
param wseed 3
end
