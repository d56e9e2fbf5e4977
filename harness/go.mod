module verif/harness

go 1.25

require (
	github.com/teonet-go/tru v0.0.0
	golang.org/x/sys v0.11.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/google/uuid v1.3.0 // indirect
	github.com/kirill-scherba/stable v0.0.8 // indirect
)

replace github.com/teonet-go/tru => /repo
