module github.com/tinne26/ggfnt/zzverif

go 1.23

require github.com/tinne26/ggfnt v0.0.0

replace github.com/tinne26/ggfnt => /repo
