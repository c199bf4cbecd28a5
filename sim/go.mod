module midisim

go 1.24
