module gozwaveverif

go 1.26

require (
	github.com/stampzilla/gozwave v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/google/uuid v1.0.0 // indirect
	github.com/pborman/uuid v1.2.0 // indirect
	github.com/sirupsen/logrus v1.3.0 // indirect
	github.com/tarm/serial v0.0.0-20180830185346-98f6abe2eb07 // indirect
	golang.org/x/crypto v0.0.0-20180904163835-0709b304e793 // indirect
	golang.org/x/sys v0.0.0-20180905080454-ebe1bf3edb33 // indirect
)

replace github.com/stampzilla/gozwave => /repo
