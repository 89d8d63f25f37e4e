module refactor

go 1.23
