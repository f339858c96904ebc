module verifharness

go 1.25

require (
	github.com/greenpau/go-identity v0.0.0
	golang.org/x/crypto v0.0.0-20210813211128-0a44fdfbc16e
)

require (
	github.com/greenpau/versioned v1.0.26 // indirect
	github.com/iancoleman/strcase v0.2.0 // indirect
	github.com/satori/go.uuid v1.2.0 // indirect
	go.uber.org/atomic v1.7.0 // indirect
	go.uber.org/multierr v1.6.0 // indirect
	go.uber.org/zap v1.19.0 // indirect
)

replace github.com/greenpau/go-identity => /repo

replace golang.org/x/crypto => ../build/xcrypto
