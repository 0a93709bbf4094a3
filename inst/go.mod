module inst

go 1.21
