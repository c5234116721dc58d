// Package ttk stands in for github.com/companyzero/ttk: the escape sequence
// functions are the real ones, the widgets only record what they show.
package ttk

import (
	"errors"
	"fmt"
	"github.com/companyzero/zkc/zkv"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	termbox "github.com/companyzero/zkc/zkv/zktermbox"
)

const (
	// see http://en.wikipedia.org/wiki/ANSI_escape_code#Colors
	ANSIFg = 30
	ANSIBg = 40

	AttrNA        = -1
	AttrReset     = 0
	AttrBold      = 1
	AttrUnderline = 3
	AttrReverse   = 7

	ColorBlack   = 0
	ColorRed     = 1
	ColorGreen   = 2
	ColorYellow  = 3
	ColorBlue    = 4
	ColorMagenta = 5
	ColorCyan    = 6
	ColorWhite   = 7
)

var (
	ErrNotEscSequence    = errors.New("not an escape sequence")
	ErrInvalidColor      = errors.New("invalid parameters for sequence")
	ErrInvalidAttribute  = errors.New("invalid attribute")
	ErrInvalidForeground = errors.New("invalid foreground")
	ErrInvalidBackground = errors.New("invalid background")
)

// Color creates an ANSI compatible escape sequence that encodes colors and
// attributes.
func Color(at, fg, bg int) (string, error) {
	var a, f, b string

	// can't be all NA
	if at == AttrNA && fg == AttrNA && bg == AttrNA {
		return "", ErrInvalidColor
	}

	switch at {
	case AttrNA:
		break
	case AttrBold, AttrUnderline, AttrReverse, AttrReset:
		a = fmt.Sprintf("%v;", at)
	default:
		return "", ErrInvalidAttribute
	}

	switch {
	case fg == AttrNA:
		break
	case fg >= ColorBlack && fg <= ColorWhite:
		f = fmt.Sprintf("%v;", fg+ANSIFg)
	default:
		return "", ErrInvalidForeground
	}

	switch {
	case bg == AttrNA:
		break
	case bg >= ColorBlack && bg <= ColorWhite:
		b = fmt.Sprintf("%v;", bg+ANSIBg)
	default:
		return "", ErrInvalidBackground
	}

	es := fmt.Sprintf("\x1b[%v%v%v", a, f, b)

	// replace last ; with m
	es = es[:len(es)-1] + "m"

	return es, nil
}

// DecodeColor decodes an ANSI color escape sequence and ignores trailing
// characters.  It returns an Attributes type that can be used directly in
// termbox (note that the termbox colors are off by one).  The skip contains
// the location of the next character that was not consumed by the escape
// sequence.
func DecodeColor(esc string) (*Attributes, int, error) {
	var a Attributes

	if len(esc) < 2 || !strings.HasPrefix(esc, "\x1b[") {
		return nil, 0, ErrNotEscSequence
	}

	// find trailing m
	i := strings.Index(esc[2:], "m")
	if i == -1 {
		return nil, 0, ErrNotEscSequence
	}

	foundM := false
	parameters := strings.Split(esc[2:i+2+1], ";")
	for _, v := range parameters {
		if strings.HasSuffix(v, "m") {
			v = v[:len(v)-1]
			foundM = true
		}
		n, err := strconv.Atoi(v)
		if err != nil {
			return nil, 0, err
		}
		switch {
		case n == AttrReset:
			// return defaults
			a.Fg = fg
			a.Bg = bg
		case n == AttrBold:
			a.Fg |= termbox.AttrBold
		case n == AttrUnderline:
			a.Fg |= termbox.AttrUnderline
		case n == AttrReverse:
			a.Fg |= termbox.AttrReverse
		case n >= ColorBlack+ANSIFg && n <= ColorWhite+ANSIFg:
			// note that termbox colors are off by one
			a.Fg |= termbox.Attribute(n - ANSIFg + 1)
		case n >= ColorBlack+ANSIBg && n <= ColorWhite+ANSIBg:
			// note that termbox colors are off by one
			a.Bg |= termbox.Attribute(n - ANSIBg + 1)
		default:
			return nil, 0, ErrNotEscSequence
		}
	}

	if !foundM {
		return nil, 0, ErrNotEscSequence
	}

	skip := strings.Index(esc, "m")
	if skip == -1 {
		// can't happen
		return nil, 0, ErrNotEscSequence
	}
	skip++ // character past m

	return &a, skip, nil
}

// EscapedLen returns total length of all escape sequences in a given string.
func EscapedLen(s string) int {
	if len(s) == 0 {
		return 0
	}

	var rw, total int
	for i := 0; i < len(s); i += rw {
		v, width := utf8.DecodeRuneInString(s[i:])
		if v == '\x1b' {
			_, skip, err := DecodeColor(s[i:])
			if err == nil {
				rw = skip
				total += skip
				continue
			}
		}
		rw = width
	}

	return total
}

// Unescape returns the unescaped string.
func Unescape(s string) string {
	if len(s) == 0 {
		return ""
	}
	if zkv.Free(s) {
		// what peers write is taken not to have colors
		var ret string
		for i := 0; i < len(s); i++ {
			c := s[i : i+1]
			if !zkv.Free(c) && c == "\x1b" {
				n := i
				for n < len(s) && !zkv.Free(s[n:n+1]) {
					n++
				}
				if _, skip, err := DecodeColor(s[i:n]); err == nil {
					i += skip - 1
					continue
				}
			}
			ret += c
		}
		return ret
	}

	var ret string
	var rw int
	for i := 0; i < len(s); i += rw {
		v, width := utf8.DecodeRuneInString(s[i:])
		if v == '\x1b' {
			_, skip, err := DecodeColor(s[i:])
			if err == nil {
				rw = skip
				continue
			}
		}
		ret += string(v)
		rw = width
	}

	return ret
}

// Attributes represents text colour, bold, blink etc.
type Attributes struct {
	Fg termbox.Attribute // foreground
	Bg termbox.Attribute // background
}

var (
	ErrAlreadyInitialized = errors.New("terminal already initialized")

	bg, fg termbox.Attribute
	keyC   = make(chan Key, 64)

	// Focused is the window that has the focus.
	Focused, prev *Window

	// Exited is the text that the program ended with.
	Exited []string
)

// Key is a key stroke.
type Key struct {
	Mod    termbox.Modifier
	Key    termbox.Key
	Ch     rune
	Window Windower
	Widget Widgeter
}

type Visibility int

const (
	VisibilityGet Visibility = iota
	VisibilityHide
	VisibilityShow
)

type Widgeter interface {
	Visibility(Visibility) Visibility
	Render()
	KeyHandler(ev termbox.Event) bool
}

type Windower interface {
	Init(w *Window)
	Render(w *Window)
	KeyHandler(*Window, Key)
}

type Window struct {
	mgr Windower
}

func Init() error { return nil }
func Deinit()     {}

var (
	queueMtx sync.Mutex
	queue    []func()
	running  bool
)

// Queue runs f later, after everything that was queued before it.
func Queue(f func()) {
	queueMtx.Lock()
	queue = append(queue, f)
	start := !running
	running = true
	queueMtx.Unlock()
	if start {
		go work()
	}
}

// Restart forgets what the process that died had still to do.
func Restart() {
	queueMtx.Lock()
	queue, running = nil, false
	queueMtx.Unlock()
}

func work() {
	for {
		queueMtx.Lock()
		if len(queue) == 0 {
			running = false
			queueMtx.Unlock()
			return
		}
		f := queue[0]
		queue = queue[1:]
		queueMtx.Unlock()
		f()
	}
}

func KeyChannel() chan Key { return keyC }

func NewWindow(manager Windower) *Window {
	w := &Window{mgr: manager}
	manager.Init(w)
	return w
}

// Manager is what the real window does not tell.
func (w *Window) Manager() Windower { return w.mgr }

func ForwardKey(k Key) {}

func DefaultAttributes() Attributes { return Attributes{} }

func Flush() {}

func Focus(w *Window) { prev, Focused = Focused, w }

func FocusPrevious() { Focused = prev }

func Panic(format string, args ...interface{}) { panic(fmt.Sprintf(format, args...)) }

func Exit(format string, args ...interface{}) { Exited = append(Exited, fmt.Sprintf(format, args...)) }

func (w *Window) FocusNext()     {}
func (w *Window) FocusPrevious() {}

type vis struct{ v Visibility }

func (v *vis) Visibility(op Visibility) Visibility {
	if op != VisibilityGet {
		v.v = op
	}
	return v.v
}

// Render is for the screen that there is not.
func (v *vis) Render() {}

// KeyHandler is for the keyboard that there is not.
func (v *vis) KeyHandler(ev termbox.Event) bool { return false }

type Justify int

const (
	JustifyLeft Justify = iota
	JustifyRight
	JustifyCenter
)

type Label struct {
	vis
	Text string
}

func (w *Window) AddLabel(x, y int, format string, args ...interface{}) *Label {
	l := &Label{}
	l.SetText(format, args...)
	return l
}

func (w *Window) AddStatus(y int, j Justify, format string, args ...interface{}) *Label {
	return w.AddLabel(0, y, format, args...)
}

func (l *Label) SetText(format string, args ...interface{}) {
	if len(args) == 0 && zkv.Free(format) {
		l.Text = format // verbs in it are not looked at
		return
	}
	l.Text = fmt.Sprintf(format, args...)
}
func (l *Label) SetAttributes(a Attributes)                 {}

type Edit struct {
	vis
	target *string
}

func (w *Window) AddEdit(x, y, width int, target *string) *Edit { return &Edit{target: target} }

func (e *Edit) GetText() string             { return *e.target }
func (e *Edit) SetText(s *string, end bool) { e.target = s }
func (e *Edit) SetAttributes(a Attributes)  {}

type Location int

const (
	Top Location = iota
	Bottom
	Up
	Down
	Current
)

type List struct {
	vis
	Content []string
	paging  bool
}

func (w *Window) AddList(x, y, width, height int) *List { return &List{} }

func (l *List) Append(format string, args ...interface{}) {
	l.Content = append(l.Content, fmt.Sprintf(format, args...))
}

func (l *List) Display(where Location)     {}
func (l *List) IsPaging() bool             { return l.paging }
func (l *List) Len() int                   { return len(l.Content) }
func (l *List) Width() int                 { return 80 }
func (l *List) SetAttributes(a Attributes) {}
