prop C16
workload file
seed 36033947079744174
mode replay
param dim 2
param jit 0
param natt 1
param ny 2
end
