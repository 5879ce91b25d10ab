prop C27
workload convert
seed 11921914848107076
mode replay
param ctype 1
param dim 2
param n 1
param nx 3
param ny 7
param outfmt 4
end
