module verif/harness

go 1.23

require github.com/younglifestyle/secs4go v0.0.0

replace github.com/younglifestyle/secs4go => /repo
require (
	github.com/ahmetb/go-linq/v3 v3.2.0
	github.com/funny/utest v0.0.0-20161029064919-43870a374500
	github.com/looplab/fsm v1.0.1
	github.com/stretchr/testify v1.8.4
	go.uber.org/atomic v1.11.0
)

require (
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/spf13/cast v1.10.0 // indirect
	go.uber.org/multierr v1.10.0 // indirect
	go.uber.org/zap v1.27.1 // indirect
	gopkg.in/natefinch/lumberjack.v2 v2.2.1 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)
