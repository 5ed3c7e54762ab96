module instrument

go 1.25
