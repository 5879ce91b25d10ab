prop C05
workload weave
seed 42249249429844715
mode replay
param dim 3
param gaps 45
param jit 1
param mseed 1
param n 6
param nx 3
param ny 3
param nz 3
param ring 1
param shuffle 237
param wmode 1
end
