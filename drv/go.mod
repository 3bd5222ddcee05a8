module verifdrv

go 1.24.0

require (
	github.com/booleworks/logicng-go v0.0.0
	github.com/antlr4-go/antlr/v4 v4.13.1 // indirect
	github.com/emirpasic/gods v1.18.1 // indirect
	golang.org/x/exp v0.0.0-20251125195548-87e1e737ad39 // indirect
)

replace github.com/booleworks/logicng-go => /repo
