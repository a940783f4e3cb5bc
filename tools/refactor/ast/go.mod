module refactorast

go 1.21
