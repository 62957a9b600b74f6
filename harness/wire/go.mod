module wire

go 1.25
