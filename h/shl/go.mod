module verif/shl

go 1.23

require (
	github.com/ethereum/go-ethereum v1.13.4
	github.com/shutter-network/shutter/shlib v0.0.0
	github.com/supranational/blst v0.3.12
	pgregory.net/rapid v1.3.0
	verif/vh v0.0.0
)

require (
	github.com/holiman/uint256 v1.2.3 // indirect
	github.com/pkg/errors v0.9.1 // indirect
	golang.org/x/crypto v0.14.0 // indirect
	golang.org/x/sys v0.14.0 // indirect
)

replace github.com/shutter-network/shutter/shlib => /repo/shlib

replace verif/vh => ../vh
