module github.com/phoenix-tui/phoenix/mouse/verifbridge

go 1.25

require github.com/phoenix-tui/phoenix/mouse v0.0.0-00010101000000-000000000000
