module verif.local/harness

go 1.27

require (
	gen.local v0.0.0
	verif.local/sim v0.0.0
)
