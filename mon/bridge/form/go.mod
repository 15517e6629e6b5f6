module github.com/phoenix-tui/phoenix/components/form/verifbridge

go 1.25

require github.com/phoenix-tui/phoenix/components v0.0.0-00010101000000-000000000000
