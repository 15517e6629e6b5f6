// Package verifbridge gives the monitors the validators of the form component:
// they are in an internal package that only this module path may import.
package verifbridge

import "github.com/phoenix-tui/phoenix/components/form/internal/domain/value"

type (
	Validator  = value.Validator
	FieldModel = value.FieldModel
)

var (
	Required  = value.Required
	MinLength = value.MinLength
	MaxLength = value.MaxLength
	Email     = value.Email
	Pattern   = value.Pattern
	Custom    = value.Custom
)
