// Package verifbridge gives the monitors the capability detector of the core
// module with a chosen environment: the public entry points only ever see the
// platform they run on.
package verifbridge

import (
	"github.com/phoenix-tui/phoenix/core/internal/domain/service"
	"github.com/phoenix-tui/phoenix/core/internal/domain/value"
)

type Capabilities = value.Capabilities

// Env is an environment on any platform.
type Env struct {
	OS   string
	Look func(string) string
}

func (e Env) Get(k string) string { return e.Look(k) }
func (e Env) Platform() string    { return e.OS }

// Detect is what a terminal in that environment is found to support.
func Detect(e Env) *Capabilities { return service.NewCapabilitiesDetector(e).Detect() }
