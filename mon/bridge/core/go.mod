module github.com/phoenix-tui/phoenix/core/verifbridge

go 1.25

require github.com/phoenix-tui/phoenix/core v0.2.4
