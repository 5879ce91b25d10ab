prop C16
workload file
seed 31528900191252383
mode replay
param dim 2
param names 2
param natt 1
end
