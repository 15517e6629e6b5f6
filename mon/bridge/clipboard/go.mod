module github.com/phoenix-tui/phoenix/clipboard/verifbridge

go 1.25

require github.com/phoenix-tui/phoenix/clipboard v0.0.0-00010101000000-000000000000
