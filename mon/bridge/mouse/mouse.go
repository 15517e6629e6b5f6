// Package verifbridge gives the monitors the gesture recognition of the mouse
// module with chosen timestamps: it is in an internal package that only this
// module path may import.
package verifbridge

import (
	"github.com/phoenix-tui/phoenix/mouse/internal/application"
	"github.com/phoenix-tui/phoenix/mouse/internal/domain/model"
)

type EventProcessor = application.EventProcessor

var (
	NewEventProcessorWithConfig = application.NewEventProcessorWithConfig
	NewMouseEventWithTimestamp  = model.NewMouseEventWithTimestamp
)
