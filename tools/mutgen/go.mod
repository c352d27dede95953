module mutgen
go 1.23
