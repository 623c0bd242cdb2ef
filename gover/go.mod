module gover

go 1.23
