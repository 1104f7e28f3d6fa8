module verif/sim

go 1.23

require (
	github.com/project-flogo/core v1.6.10
	github.com/project-flogo/flow v0.10.1
)
