module verif/harness

go 1.25

require (
	github.com/Atheer-Ganayem/SnapWS v0.0.0
	github.com/anishathalye/porcupine v1.3.1
	golang.org/x/time v0.12.0
)

replace github.com/Atheer-Ganayem/SnapWS => /repo
