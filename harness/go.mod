module verif/harness

go 1.23

require github.com/direct-connect/go-dc v0.0.0

require (
	github.com/cxmcc/tiger v0.0.0-20170524142333-bde35e2713d7 // indirect
	golang.org/x/text v0.3.2 // indirect
)

replace github.com/direct-connect/go-dc => /repo
