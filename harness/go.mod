module verif/harness

go 1.26

require (
	github.com/rveen/ogdl v0.0.0
	pgregory.net/rapid v1.3.0
)

require golang.org/x/text v0.3.8 // indirect

replace github.com/rveen/ogdl => /repo
