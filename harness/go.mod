module github.com/hyperonym/ratus/verif

go 1.25
