module verif/harness

go 1.23

require (
	github.com/golang/protobuf v1.3.5
	github.com/tendermint/go-amino v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/pkg/errors v0.9.1 // indirect
)

replace github.com/tendermint/go-amino => /repo
