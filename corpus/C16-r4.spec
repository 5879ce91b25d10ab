prop C16
workload file
seed 63072958872921428
mode replay
param lname 292
end
