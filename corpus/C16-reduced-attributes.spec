prop C16
workload file
seed 21264020980836545
mode replay
param dim 3
param n 1
param natt 1
param nx 2
param ny 2
param nz 4
param rep 1
param wrep 1
end
