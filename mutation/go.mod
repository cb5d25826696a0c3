module mutation

go 1.23
