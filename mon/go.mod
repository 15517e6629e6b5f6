module phoenixverif

go 1.25.1

require (
	github.com/phoenix-tui/phoenix v0.0.0-00010101000000-000000000000
	github.com/phoenix-tui/phoenix/core v0.2.4
	github.com/phoenix-tui/phoenix/render v0.2.4
	github.com/phoenix-tui/phoenix/style v0.2.4
	github.com/phoenix-tui/phoenix/tea v0.2.4
	github.com/phoenix-tui/phoenix/terminal v0.2.4
	github.com/phoenix-tui/phoenix/testing v0.2.4
)

require (
	github.com/google/uuid v1.6.0 // indirect
	github.com/phoenix-tui/phoenix/clipboard v0.2.4
	github.com/phoenix-tui/phoenix/clipboard/verifbridge v0.0.0-00010101000000-000000000000
	github.com/phoenix-tui/phoenix/components v0.0.0-00010101000000-000000000000
	github.com/phoenix-tui/phoenix/components/form/verifbridge v0.0.0-00010101000000-000000000000
	github.com/phoenix-tui/phoenix/core/verifbridge v0.0.0-00010101000000-000000000000
	github.com/phoenix-tui/phoenix/layout v0.0.0-00010101000000-000000000000
	github.com/phoenix-tui/phoenix/mouse v0.0.0-00010101000000-000000000000
	github.com/phoenix-tui/phoenix/mouse/verifbridge v0.0.0-00010101000000-000000000000
	github.com/rivo/uniseg v0.4.7 // indirect
	github.com/unilibs/uniwidth v0.2.0 // indirect
	golang.org/x/sys v0.40.0 // indirect
	golang.org/x/term v0.39.0 // indirect
)

replace (
	github.com/phoenix-tui/phoenix => /repo/
	github.com/phoenix-tui/phoenix/clipboard => /repo/clipboard
	github.com/phoenix-tui/phoenix/components => /repo/components
	github.com/phoenix-tui/phoenix/core => /repo/core
	github.com/phoenix-tui/phoenix/layout => /repo/layout
	github.com/phoenix-tui/phoenix/mouse => /repo/mouse
	github.com/phoenix-tui/phoenix/render => /repo/render
	github.com/phoenix-tui/phoenix/style => /repo/style
	github.com/phoenix-tui/phoenix/tea => /repo/tea
	github.com/phoenix-tui/phoenix/terminal => /repo/terminal
	github.com/phoenix-tui/phoenix/testing => /repo/testing
)

replace github.com/phoenix-tui/phoenix/components/form/verifbridge => ./bridge/form

replace github.com/phoenix-tui/phoenix/mouse/verifbridge => ./bridge/mouse

replace github.com/phoenix-tui/phoenix/clipboard/verifbridge => ./bridge/clipboard

replace github.com/phoenix-tui/phoenix/core/verifbridge => ./bridge/core
