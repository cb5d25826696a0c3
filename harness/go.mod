module verif/harness

go 1.23

require (
	github.com/gagliardetto/binary v0.0.0
	github.com/streamingfast/logging v0.0.0-20230608130331-f22c91403091
	go.uber.org/zap v1.21.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/blendle/zapdriver v1.3.1 // indirect
	github.com/logrusorgru/aurora v2.0.3+incompatible // indirect
	github.com/mitchellh/go-testing-interface v1.14.1 // indirect
	go.uber.org/atomic v1.7.0 // indirect
	go.uber.org/multierr v1.6.0 // indirect
	golang.org/x/crypto v0.0.0-20220214200702-86341886e292 // indirect
	golang.org/x/sys v0.0.0-20210615035016-665e8c7367d1 // indirect
	golang.org/x/term v0.0.0-20201126162022-7de9c90e9dd1 // indirect
)

replace github.com/gagliardetto/binary => /repo
