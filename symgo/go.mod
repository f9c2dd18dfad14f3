module symgo

go 1.26.0

require (
	github.com/consensys/bavard v0.1.13
	github.com/consensys/gnark-crypto v0.9.1
	github.com/mmcloughlin/addchain v0.4.0
	golang.org/x/crypto v0.6.0
	golang.org/x/mod v0.42.0
	golang.org/x/sync v0.24.0
	golang.org/x/sys v0.49.0
	golang.org/x/tools v0.52.0
	rsc.io/tmplfunc v0.0.3
)

replace github.com/consensys/gnark-crypto => github.com/bnb-chain/gnark-crypto v0.8.1-0.20230412133626-30223a679fb7

replace github.com/google/subcommands => ./stub/github.com_google_subcommands

replace github.com/mmcloughlin/profile => ./stub/github.com_mmcloughlin_profile
