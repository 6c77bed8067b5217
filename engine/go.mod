module verifengine

go 1.26.0

require (
	github.com/dchest/blake2b v1.0.0
	golang.org/x/crypto v0.0.0-20220722155217-630584e8d5aa
	golang.org/x/tools v0.52.0
)

require (
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
)
