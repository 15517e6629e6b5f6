// Package verifbridge gives the monitors clipboards with providers of their
// own, and the rich text codec: the provider interface and the codec are in
// internal packages that only this module path may import.
package verifbridge

import (
	"time"

	"github.com/phoenix-tui/phoenix/clipboard"
	"github.com/phoenix-tui/phoenix/clipboard/internal/application"
	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/model"
	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/service"
	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/value"
)

// Fake is a clipboard provider made of functions.
type Fake struct {
	Title string
	Avail func() bool
	Get   func() (string, error)
	Put   func(text, mime string) error
}

func (f *Fake) Read() (*model.ClipboardContent, error) {
	s, err := f.Get()
	if err != nil {
		return nil, err
	}
	return model.NewTextContent(s)
}

func (f *Fake) Write(c *model.ClipboardContent) error {
	return f.Put(string(c.Data()), c.MIMEType().String())
}

func (f *Fake) IsAvailable() bool { return f.Avail() }
func (f *Fake) Name() string      { return f.Title }

// Build makes a clipboard of the given providers, then the built-in ones.
func Build(fakes []*Fake, osc bool, timeout time.Duration, native bool) (*clipboard.Clipboard, error) {
	b := clipboard.NewBuilder().WithOSC52(osc).WithOSC52Timeout(timeout).WithNative(native)
	for _, f := range fakes {
		b = b.WithProvider(f)
	}
	return b.Build()
}

type (
	Styles = value.TextStyles
	Codec  = service.RichTextCodec
)

var (
	NewCodec    = service.NewRichTextCodec
	NewManager  = application.NewClipboardManagerWithProviders
	NewStyles   = value.NewTextStyles
	ParseColor  = value.ParseColorRGB
	FormatColor = value.FormatColorRGB
)

// StyledClipboard reads and writes styled text.
type StyledClipboard interface {
	WriteStyledText(text string, styles Styles) error
	ReadStyledText() (string, Styles, error)
}

// Styled makes a manager of the given provider.
func Styled(f *Fake) (StyledClipboard, error) { return NewManager([]service.Provider{f}) }
