prop C13
workload dist
seed 57885094165732872
mode replay
param ctype 4
param dim 2
param n 2
param wrap 2
end
