module termsim

go 1.23.0

require (
	github.com/creack/pty v1.1.24
	github.com/ricochet1k/termemu v0.0.0
	github.com/rivo/uniseg v0.4.7
)

replace github.com/ricochet1k/termemu => /repo
