module vengine

go 1.26.0

require (
	github.com/btcsuite/btcd/btcec/v2 v2.2.0
	github.com/decred/dcrd/dcrec/secp256k1/v4 v4.0.1
	golang.org/x/crypto v0.0.0-20211215153901-e495a2d5b3d3
	golang.org/x/tools v0.52.0
)

require (
	github.com/btcsuite/btcd/chaincfg/chainhash v1.0.1 // indirect
	github.com/decred/dcrd/crypto/blake256 v1.0.0 // indirect
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
	golang.org/x/sys v0.49.0 // indirect
)
