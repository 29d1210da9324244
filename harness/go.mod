module verifharness

go 1.23

require (
	pgregory.net/rapid v1.3.0
	uniswap-simulator v0.0.0
)

replace uniswap-simulator => /repo
