module kfverif

go 1.26.0

require (
	golang.org/x/mod v0.42.0
	golang.org/x/sync v0.24.0
	golang.org/x/tools v0.52.0
)

require github.com/kwilteam/kwil-db/parse v0.1.2

require (
	github.com/antlr4-go/antlr/v4 v4.13.0 // indirect
	github.com/kwilteam/sql-grammar-go v0.1.0 // indirect
	golang.org/x/exp v0.0.0-20230817173708-d852ddb80c63 // indirect
)
