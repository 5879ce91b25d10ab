prop C18
workload file
seed 19062134769621724
mode replay
param dim 2
param lname 291
param mode 2
end
