module verifharness

go 1.23

require (
	github.com/kevmo314/appendable v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	golang.org/x/sys v0.16.0
	golang.org/x/text v0.14.0
)

replace github.com/kevmo314/appendable => /repo
