module verifdriver

go 1.18

require github.com/Andrew-M-C/go.jsonvalue v0.0.0

require github.com/shopspring/decimal v1.4.0 // indirect

replace github.com/Andrew-M-C/go.jsonvalue => /repo
