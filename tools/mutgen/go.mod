module mutgen
go 1.21
