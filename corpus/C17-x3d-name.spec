prop C17
workload file
seed 51681093190159726
mode replay
param fmt 2
end
