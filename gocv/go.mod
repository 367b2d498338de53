module gocv

go 1.23
