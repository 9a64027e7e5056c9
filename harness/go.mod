module github.com/tinne26/ggfnt/verif

go 1.24

require github.com/tinne26/ggfnt v0.0.0

replace github.com/tinne26/ggfnt => /repo
