prop C06
workload hist
seed 16773088734839053
mode replay
param dim 2
param n 4
param o00 21832
param start 1
end
