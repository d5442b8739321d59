module verif

go 1.20

require github.com/protolambda/zssz v0.0.0

replace github.com/protolambda/zssz => /repo
