prop C09
workload hist
seed 38930183023144455
mode replay
param dim 2
param h0 112
param n 2
param nx 2
param ny 2
param o00 44641
param o01 6917
param start 1
param wseed 640186
end
