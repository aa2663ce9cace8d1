module github.com/goburrow/serial

go 1.15
