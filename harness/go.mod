module verif/harness

go 1.21

require github.com/sp301415/tfhe-go v0.0.0

require golang.org/x/sys v0.30.0 // indirect

replace github.com/sp301415/tfhe-go => /repo
