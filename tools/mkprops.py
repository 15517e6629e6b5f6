#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            observe_at=observe, hook_needed=hook)))
PG = "tea/internal/application/program/program.go"
INL = "tea/internal/infrastructure/renderer/inline.go"
RD = "tea/internal/infrastructure/input/reader.go"
CR = "tea/internal/infrastructure/input/cancelable_reader.go"
PA = "tea/internal/infrastructure/ansi/parser.go"
CMD = "tea/internal/domain/service/builtin_cmds.go"

p("P01", "The terminal is given back as it was found after every program run",
  "Whenever a program run ends (quit command, context-free stop, or stop while suspended, on any history of suspend, resume and external commands), the terminal is back in the modes it had before the run: raw mode off, alternate screen left, mouse reporting off, cursor visible, each mode left as often as it was entered and never entered twice in a row. "
  "The same holds during suspension, so that an external command gets a normal terminal for as long as it runs (also when several are asked for at once); a run whose start fails leaves everything as it was and can be started again.",
  ["histories", "fault_sequences"], "every option set x every sequence of suspend/resume/exec/quit, with any single terminal call failing",
  "Tests drive a handful of fixed sequences against a mock and assert call counts; no test replays the emitted modes through a terminal, injects failures or ends the run in each state.",
  [PG, "tea/tea.go", "terminal/internal/infrastructure/unix/ansi.go"],
  [("Run/Start setup and deferred restore", PG), ("Suspend/Resume/ExecProcess", PG)],
  ["calls on the injected terminal, bytes written to the output"],
  [("suspended/running", "lifecycle state of the program", PG)])
p("P02", "Messages are applied one at a time, exactly once, in each sender's order",
  "While a program runs, every message accepted by Send from any number of goroutines, and every message produced by a started command, is applied to the model exactly once, of the type and with the content it was sent with, and each sender's messages are applied in the order sent; init, update and view never run concurrently with each other, and each update receives the model returned by the previous one. "
  "None of this involves a data race.",
  ["schedules", "histories"], "any number of senders, commands, suspends/resumes and timings",
  "Tests send a few messages from one goroutine; ordering and exclusion must hold for every schedule.",
  [PG, "tea/tea.go"], [("event loop and message channel", PG), ("executeCmd", PG)],
  ["Update/View/Init of a monitored model, Send return values"],
  [("msgCh", "queue of pending messages", PG)])
p("P03", "Batch and sequence commands deliver every result, whatever their size",
  "Every non-nil command in a batch or sequence of any size and nesting is run exactly once and its message reaches the model exactly once, without the program ever getting stuck. "
  "Commands in a batch are all started without waiting for each other; commands in a sequence run strictly one after the other and their messages are applied in sequence order.",
  ["programs", "schedules"], "every command tree and every timing of its leaves",
  "Tests run batches of two to five commands outside the event loop; the size of the internal queue and the interleaving with other senders is never exercised.",
  [PG, CMD, "tea/tea.go"], [("Batch/Sequence", CMD), ("expansion of BatchMsg/SequenceMsg in the event loop", PG)],
  ["start/end log of each leaf command, Update log"])
p("P04", "Quit and stop always end the program, once, and leave nothing behind",
  "A quit message or command, or a stop request, made at any moment after the program started makes Run return (and reports the program as not running) without needing any further message, even when commands or input are still blocked; Run never returns without one. "
  "After that no update, view or output happens, no goroutine of the program other than still-running user commands and a blocked input read survives, and the program can be started again; starting one that runs is an error that changes nothing.",
  ["schedules", "histories"], "every point in the run at which quit or stop can arrive",
  "Tests quit from an idle program; the lost-wakeup windows (quit while updating, quit with pending commands, several quits) need particular schedules.",
  [PG, "tea/tea.go"], [("quit channel, Stop, Run", PG)], ["Run's return, goroutine dump, Update/View/Output log"],
  [("quitCh/running", "termination signal and state", PG)])
p("P05", "While suspended a program is silent, and it is fully redrawn when resumed",
  "Between a successful suspend and the matching resume the program writes nothing to the terminal and takes no input, whatever messages arrive; those messages still take effect. After resume, the first frame shows the current model completely, on a screen with arbitrary other content above, and input works again. "
  "Suspend when suspended, resume when running and external commands that fail or cannot be started leave the program in a running, usable state.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of messages, frames and input with suspend, resume and external commands",
  "Tests check that suspend/resume call the terminal; they never look at output produced while suspended nor at the screen after resume.",
  [PG, INL, CR], [("Suspend/Resume", PG), ("ExecProcess/ExecProcessWithTTY", PG), ("Repaint", INL)],
  ["output writer tagged with suspension state, screen emulator"])
p("P06", "The inline renderer's screen always equals the last view",
  "After each frame the visible rows of a terminal that interprets the output are exactly the lines of the latest view, each cut to the terminal width, with the styles of the view, and nothing of earlier views remains; content above the view is not touched. "
  "This holds for any sequence of views (growing, shrinking, equal, empty, wide characters, styled text, lines longer than or exactly as long as the terminal is wide) and of resizes, on the main and on the alternate screen; lines that did not change are not written again, and a frame the terminal did not accept is made up for by the next one.",
  ["histories", "inputs"], "every sequence of views and window sizes with views no taller than the screen",
  "Tests compare escape strings for single transitions; they do not interpret them, so any equivalent-looking but wrong sequence passes.",
  [INL, PG], [("line diff, cursor moves, erase", INL), ("truncateLine", INL)], ["output bytes interpreted by a terminal emulator at every frame"],
  [("lastLines/lastView", "what the renderer believes is on screen", INL)])
p("P07", "Key decoding does not depend on how input bytes arrive",
  "For any input made of printable Unicode characters, control keys, the Esc key and the supported escape sequences, the sequence of key messages the model receives is exactly the sequence of keys encoded, in order, none lost, duplicated or invented, however the bytes are split into reads. "
  "Unknown escape sequences produce no characters and do not disturb the keys after them. Every key and mouse event has its documented name, whatever its modifiers.",
  ["inputs", "schedules"], "every key sequence and every split of its bytes into reads",
  "Tests parse one complete sequence per call; splits, bursts and mixed sequences are unsampled.",
  [RD, PA, CR], [("Reader.Read", RD), ("ParseKey/ParseMouse", PA)], ["messages received by the model for bytes written to the input"])
p("P09", "The differential renderer's terminal always equals the buffer",
  "After Render returns without error, a terminal that interprets everything written so far shows exactly the buffer given: same characters (wide, combining and emoji clusters included) and same colours and attributes in every cell, for any sequence of renders, clears and resizes, including the first frame. "
  "No output can scroll the screen or touch anything outside it.",
  ["histories", "inputs"], "every sequence of buffers, clears and resizes",
  "Tests look for substrings of the output of one or two frames; state carried between frames (previous buffer, cursor, active style) is only exercised by histories.",
  ["render/internal/application/renderer.go", "render/internal/domain/service/diff.go", "render/internal/domain/service/optimize.go", "render/internal/infrastructure/ansi/writer.go", "render/internal/domain/model/buffer.go"],
  [("Diff", "render/internal/domain/service/diff.go"), ("op optimisation", "render/internal/domain/service/optimize.go"), ("writer with style/cursor tracking", "render/internal/infrastructure/ansi/writer.go")],
  ["bytes written to the io.Writer interpreted by an emulator"])
p("P10", "Unchanged frames cost nothing and output errors are never lost",
  "Rendering a buffer equal to what is on screen writes no cell content and no cursor movement, and the output for a changed frame stays within a constant factor of the number of changed cells. "
  "If the output fails or writes short at any byte, the render reports an error, and once the output works again the next successful render brings the screen to the buffer completely.",
  ["fault_sequences", "histories"], "every fault position in the output stream x every frame sequence",
  "No test injects a partial write and then continues rendering.",
  ["render/internal/application/renderer.go", "render/internal/infrastructure/ansi/writer.go", "render/renderer.go"],
  [("Renderer.Render error path", "render/internal/application/renderer.go"), ("bufio writer", "render/internal/infrastructure/ansi/writer.go")],
  ["fault-injecting io.Writer + emulator"])
p("P11", "Buffer writing and pooling place every cluster in the cells it occupies",
  "Writing a string at a position puts each grapheme cluster at the column given by the widths before it, never outside the buffer, and changes nothing else; clear, fill and set affect exactly the addressed cells. "
  "A buffer taken from the renderer is blank and has the renderer's current size whatever was released earlier.",
  ["inputs", "histories"], "every string, position and acquire/release/resize history",
  "Tests write ASCII and a few CJK characters to fresh buffers.",
  ["render/internal/domain/model/buffer.go", "render/renderer.go", "render/internal/application/renderer.go"],
  [("SetString/SetLine", "render/internal/domain/model/buffer.go"), ("buffer pool", "render/internal/application/renderer.go")],
  ["cells of the buffer"])
p("P12", "Width calculation agrees with terminals and is additive over characters",
  "The reported width of any string is the sum of the widths of its grapheme clusters, independent of how it is split at cluster boundaries, zero for control and combining-only text, one for ordinary and two for wide and emoji clusters as defined by Unicode; splitting into clusters loses nothing. "
  "Cells, positions and sizes built from any input keep their documented invariants.",
  ["inputs"], "every Unicode string",
  "Tests list examples; the table lookups and fast paths have thousands of range boundaries.",
  ["core/unicode.go", "core/core.go", "core/internal/domain/service/unicode_service.go", "core/internal/domain/value/cell.go", "core/internal/domain/value/size.go", "core/internal/domain/value/position.go"],
  [("StringWidth/ClusterWidth", "core/internal/domain/service/unicode_service.go")], ["return values compared with an independent Unicode implementation"])
p("P13", "Capability detection never claims more than the environment says",
  "For any environment, detected capabilities are deterministic and consistent: a disabled-colour request or a dumb or absent terminal yields no colour, true colour is claimed only if announced, and adding an unrelated variable changes nothing. "
  "Capability and terminal values are immutable: deriving a changed value leaves the original as it was.",
  ["configurations"], "every combination of the environment variables consulted",
  "Tests set a few combinations; precedence among six variables is a product space.",
  ["core/internal/domain/service/capabilities_detector.go", "core/internal/domain/value/capabilities.go", "core/internal/domain/model/terminal.go", "core/core.go"],
  [("Detect", "core/internal/domain/service/capabilities_detector.go")], ["core.AutoDetect under controlled environments"])
p("P14", "Styled output never uses colours beyond the capability, and picks the nearest",
  "Text styled with any colours for a terminal of a given capability contains only colour sequences of that capability (none for no colour, 16, 256 or true colour), foreground as foreground and background as background. "
  "The colour shown is the requested one when representable and otherwise the palette entry the documented mapping selects, no further from the request than the error that mapping allows.",
  ["inputs", "configurations"], "all 16.7M colours x all capabilities",
  "Tests convert a dozen colours.",
  ["style/internal/domain/service/color_adapter.go", "style/internal/infrastructure/ansi/code_generator.go", "style/internal/domain/value/color.go", "style/internal/application/command/render.go"],
  [("ColorAdapter", "style/internal/domain/service/color_adapter.go")], ["SGR parameters in the output of Render"])
p("P15", "A styled block is an exact rectangle holding its content, and styles do not leak",
  "Rendering any multi-line Unicode content with any padding, border, margin, alignment and size gives a block whose lines all have equal visible width and whose height and width are the content's plus exactly the requested spacing; the content's characters appear unchanged, in order and at the requested offset, and border characters form the frame. "
  "Every attribute and colour requested is active on all content cells and none is active after the end of any line.",
  ["inputs", "configurations"], "every content x every combination of style options",
  "Tests check single-option, mostly ASCII renders by substring.",
  ["style/internal/application/command/render.go", "style/internal/application/command/border_renderer.go", "style/internal/domain/service/text_aligner.go", "style/internal/domain/service/spacing_calculator.go", "style/internal/domain/model/style.go"],
  [("RenderCommand pipeline", "style/internal/application/command/render.go")], ["rendered text interpreted cell by cell"])
p("P16", "The theme manager behaves as one atomic register, and styles are immutable",
  "Under any concurrent use, reads of the current theme return the result of some order of the completed set, preset, merge and reset calls that respects real time, never a mixture of two themes; merging overrides exactly what the other theme defines. "
  "Deriving a style or theme never changes the one it was derived from.",
  ["schedules", "histories"], "every interleaving of readers and writers; every chain of derivations",
  "Tests start goroutines without checking what they observed.",
  ["style/internal/application/theme_manager.go", "style/internal/domain/model/theme.go", "style/internal/domain/model/style.go", "style/theme.go"],
  [("RWMutex in ThemeManager", "style/internal/application/theme_manager.go")], ["call/return history checked for linearizability, race detector"])
p("P17", "A rendered box is a rectangle that contains its content intact",
  "Rendering a box with any padding, margin and border around any multi-line Unicode content yields lines of equal visible width, with every content line intact and in order at the offset the spacing says and the border closed around it. "
  "The size the box reports by measuring equals the size of what it renders.",
  ["inputs", "configurations"], "every content x every spacing",
  "Tests use short ASCII content.",
  ["layout/layout.go", "layout/internal/domain/service/render_service.go", "layout/internal/domain/service/measure_service.go", "layout/internal/domain/model/box.go"],
  [("Render", "layout/internal/domain/service/render_service.go"), ("Measure", "layout/internal/domain/service/measure_service.go")], ["rendered lines"])
p("P18", "Flex layout fills exactly its area, in order, without overlap",
  "A row or column rendered into a width and height gives exactly that many lines of exactly that visible width; items appear in the order added along the main axis, separated by at least the gap when they fit, placed on both axes where justification and alignment say, never overlapping. "
  "Every cell not covered by an item is blank and items that fit appear completely.",
  ["inputs", "configurations"], "every list of items, gap, justification, alignment, grow and area",
  "Tests check position arithmetic for few fixed items.",
  ["layout/layout.go", "layout/internal/domain/service/flexbox_layout_service.go", "layout/internal/domain/model/flexbox.go"],
  [("flex layout", "layout/internal/domain/service/flexbox_layout_service.go")], ["rendered grid"])
p("P19", "The text input behaves as an ideal single-line editor and shows it",
  "For any sequence of keys and programmatic edits, the content and cursor equal those of an ideal editor working on whole user-perceived characters, the cursor always lies between characters inside the content, and required validation and filters reject without side effects. "
  "The view is valid text that never exceeds the width, always shows the character at the cursor, and shows a contiguous part of the content.",
  ["histories", "inputs"], "every edit history over Unicode text",
  "Tests type ASCII; cluster versus byte versus rune offsets coincide there.",
  ["components/input/input.go", "components/input/internal/input/domain/model/input.go", "components/input/internal/input/domain/service/cursor_movement.go"],
  [("InsertRune/Delete", "components/input/internal/input/domain/model/input.go"), ("View", "components/input/input.go")], ["Content/CursorPosition/View"])
p("P20", "The text area behaves as an ideal multi-line editor with a kill ring",
  "For any sequence of editing, movement, kill and yank keys and programmatic changes, text, cursor and kill contents equal those of an ideal multi-line editor; limits on lines and characters, read-only mode and the movement and boundary callbacks are honoured on every path that edits or moves. "
  "The view shows exactly as many rows as the height at most, always including the cursor's row.",
  ["histories", "inputs"], "every edit history",
  "Tests apply one operation to a small buffer each.",
  ["components/input/textarea.go", "components/input/internal/textarea/domain/model/textarea.go", "components/input/internal/textarea/domain/service/editing.go", "components/input/internal/textarea/domain/service/navigation.go", "components/input/internal/textarea/infrastructure/keybindings/emacs.go", "components/input/internal/textarea/infrastructure/renderer/textarea_renderer.go"],
  [("editing service", "components/input/internal/textarea/domain/service/editing.go"), ("scroll adjustment", "components/input/internal/textarea/domain/model/textarea.go")], ["Value/Lines/CursorPosition/View"])
p("P21", "The viewport always shows a valid window onto its content",
  "After any sequence of content changes, appends, resizes, scrolls, key and wheel events, the offset lies between zero and the last full page, the view is exactly the lines of the content at that offset, no more than the height and none wider than the width, and the at-top/at-bottom and scroll flags agree with the offset. "
  "In follow mode the last line stays visible unless the user scrolled away, and scrolling back to the end resumes following.",
  ["histories", "inputs"], "every operation history",
  "Tests check single operations from a fresh state.",
  ["components/viewport/viewport.go", "components/viewport/internal/domain/model/viewport.go", "components/viewport/internal/domain/service/scroll.go"],
  [("scroll service", "components/viewport/internal/domain/service/scroll.go")], ["View/ScrollOffset and predicates"])
p("P22", "Lists and pickers: the focus is visible, the filter exact, the selection stable",
  "After any sequence of keys and changes to a list, single-choice or multi-choice picker, the focused entry (if any entry matches) exists, is drawn and marked exactly once; the entries drawn are a contiguous window of those matching the filter, in original order; the selection contains exactly the entries toggled, is reported in order, survives filtering and obeys minimum and maximum. "
  "Confirming reports exactly the focused or selected entries, and clearing the filter restores everything.",
  ["histories", "inputs"], "every key and change history over any entries",
  "Tests press a few keys on three-item lists.",
  ["components/list/list.go", "components/list/internal/domain/model/list.go", "components/select/select.go", "components/select/internal/domain/model/select.go", "components/multiselect/multiselect.go", "components/multiselect/internal/domain/model/multiselect.go"],
  [("List", "components/list/internal/domain/model/list.go"), ("Select", "components/select/internal/domain/model/select.go"), ("MultiSelect", "components/multiselect/internal/domain/model/multiselect.go")], ["View, focus, selection and messages"])
p("P23", "Table sorting is a stable permutation and the table stays rectangular",
  "Sorting by any column orders the rows by that column in the chosen direction, keeps equal rows in original order, loses or duplicates no row, and clearing the sort restores the original order; the selected row stays in range and visible through every navigation, resize and data change. "
  "Every line of the view has the same visible width, cells hold the row's value truncated or padded to the column as aligned, whatever characters they contain.",
  ["histories", "inputs"], "every data set, sort, navigation and resize history",
  "Tests sort three ASCII rows.",
  ["components/table/table.go", "components/table/internal/domain/model/table.go", "components/table/internal/domain/service/sort.go"],
  [("sort", "components/table/internal/domain/service/sort.go"), ("formatCell", "components/table/table.go")], ["View and SelectedRow"])
p("P24", "Dialogs answer exactly once and forms submit only valid data",
  "A confirmation answers exactly once, with the button focused or the key pressed, and ignores everything after; a modal reports exactly the activated button and is drawn as a closed rectangle inside the screen showing its content while visible and nothing while hidden. "
  "A form moves focus through its fields cyclically, submits only when every field's validators accept its current value, reports an error for every one that does not, and cancelling never submits; progress indicators draw exactly their width filled in proportion.",
  ["histories", "inputs"], "every key history and every size and content",
  "Tests press one or two keys; geometry is checked by substring.",
  ["components/confirm/confirm.go", "components/modal/modal.go", "components/form/form.go", "components/progress/bar.go", "components/progress/spinner.go", "components/confirm/internal/domain/model/confirm.go", "components/modal/internal/domain/model/modal.go", "components/form/internal/domain/model/form.go"],
  [("Confirm", "components/confirm/internal/domain/model/confirm.go"), ("Modal layout", "components/modal/internal/domain/service/layout.go"), ("Form validation", "components/form/internal/domain/model/form.go")], ["messages from commands, View"])
p("P25", "Component values are snapshots: later operations never change earlier ones",
  "Holding on to any earlier value of a component, style, layout or theme and continuing from a later one never changes what the earlier one shows or reports, and the slices and maps passed in or handed out are not shared with it. "
  "Continuing twice from the same earlier value gives independent, identical results.",
  ["histories"], "every operation history with branching at any point",
  "Tests check a derived value differs but rarely re-inspect the original, and never after long histories (append aliasing needs spare capacity).",
  ["components/input/textarea.go", "components/list/internal/domain/model/list.go", "components/table/internal/domain/model/table.go", "components/viewport/internal/domain/model/viewport.go", "components/multiselect/internal/domain/model/multiselect.go", "components/input/internal/textarea/domain/model/buffer.go", "components/input/internal/textarea/domain/model/killring.go", "layout/layout.go"],
  [("copy-on-write With... methods", "components/*/internal/domain/model")], ["View and accessors of retained snapshots"])
p("P26", "Mouse reports decode to what the terminal encoded, in all three protocols",
  "For every button, modifier set, action and position, the event decoded from the SGR, X10 or URxvt report has exactly that position (zero-based), button, modifiers and kind (press, release, motion, scroll), and malformed or truncated reports yield an error or nothing, never a wrong event or a crash. "
  "Enabling and disabling reporting writes matching mode sequences.",
  ["inputs"], "every button code x modifier x coordinate x protocol, and arbitrary byte strings",
  "Tests decode a few reports, none with motion while a button is held.",
  ["mouse/mouse.go", "mouse/internal/infrastructure/parser/sgr_parser.go", "mouse/internal/infrastructure/parser/x10_parser.go", "mouse/internal/infrastructure/parser/urxvt_parser.go", "mouse/internal/infrastructure/ansi/mouse_ansi.go"],
  [("parsers", "mouse/internal/infrastructure/parser")], ["events returned by ParseSequence"])
p("P27", "Clicks, multi-clicks, drags and scrolls are recognised exactly",
  "For any stream of raw reports, every press and release is delivered; a click follows a release exactly when it ends a press of the same button that stayed in place, repeated clicks at the same place with the same button count single, double, triple and wrap, and movement beyond the threshold with a button held is a drag until release and never also a click. "
  "A scroll report yields one scroll event with the right direction and disturbs no gesture, and reset forgets everything.",
  ["histories"], "every stream of presses, releases, motions and scrolls",
  "Tests feed hand-made event values, not decoded streams.",
  ["mouse/internal/application/event_processor.go", "mouse/internal/domain/service/click_detector.go", "mouse/internal/domain/service/drag_tracker.go", "mouse/internal/domain/model/drag_state.go", "mouse/internal/domain/service/scroll_calculator.go"],
  [("ClickDetector", "mouse/internal/domain/service/click_detector.go"), ("DragTracker", "mouse/internal/domain/service/drag_tracker.go")], ["events returned by ParseSequence"])
p("P28", "Hover transitions alternate and menus stay on screen",
  "Along any path of the pointer over any set of areas, entering is reported exactly when the hovered area changes to another, moving exactly while it stays inside one, leaving exactly when it leaves all; the current hovered area is always the first one that contains the pointer. "
  "A menu that fits the screen is always placed entirely inside it, at the pointer when it fits there.",
  ["histories", "inputs"], "every pointer path and area set; every pointer, menu and screen size",
  "Tests walk one path over one or two areas.",
  ["mouse/internal/domain/service/hover_tracker.go", "mouse/internal/domain/model/hover_state.go", "mouse/internal/domain/service/menu_positioner.go", "mouse/mouse.go"],
  [("HoverTracker", "mouse/internal/domain/service/hover_tracker.go"), ("MenuPositioner", "mouse/internal/domain/service/menu_positioner.go")], ["ProcessHover/CalculateMenuPosition results"])
p("P29", "What is written to the clipboard is what arrives, exactly once",
  "A write that succeeds has placed exactly the given text, byte for byte, with exactly one provider, the first available one that works; with the terminal provider that is one well-formed clipboard sequence and nothing else; a read returns what the system clipboard holds. "
  "A write or read that could not be done by any provider returns an error and a failing provider never prevents a working one from being used.",
  ["inputs", "fault_sequences"], "every text x every set of available, failing and missing providers",
  "Tests mock the provider; the command line, pipe and terminal paths are never checked end to end.",
  ["clipboard/clipboard.go", "clipboard/internal/application/clipboard_manager.go", "clipboard/internal/domain/service/clipboard_service.go", "clipboard/internal/infrastructure/osc52/osc52_provider.go", "clipboard/internal/infrastructure/native/clipboard_linux.go"],
  [("provider selection", "clipboard/internal/domain/service/clipboard_service.go"), ("OSC 52 write", "clipboard/internal/infrastructure/osc52/osc52_provider.go")], ["stand-in clipboard programs, a pseudo-terminal"])
p("P30", "Clipboard history is the exact, bounded, most-recent-first record of writes",
  "With history enabled, after any number of writes from any goroutines the history holds exactly the most recent successful ones up to the limit, newest first, each once, with its content; entries older than the maximum age are absent; restoring, clearing, disabling and size totals agree with the entries listed. "
  "Entries handed out are copies, and concurrent use is free of data races.",
  ["histories", "schedules"], "every history of writes, restores, clears and limits; every schedule",
  "Tests add a few entries sequentially.",
  ["clipboard/internal/domain/service/clipboard_history.go", "clipboard/internal/domain/model/history_entry.go", "clipboard/clipboard.go"],
  [("ClipboardHistory", "clipboard/internal/domain/service/clipboard_history.go")], ["history accessors, race detector"])
p("P31", "Rich text conversion preserves the text and its formatting",
  "Converting text with any characters and nested formatting from HTML to RTF and back, and writing and reading rich text, preserves every character, line break, bold, italic, underline, colour and size, and the generated RTF is ASCII and balanced. "
  "Characters that are special in either format never turn into markup and arbitrary malformed input never crashes.",
  ["inputs"], "every text and style combination; arbitrary byte strings",
  "Tests round-trip short ASCII phrases.",
  ["clipboard/internal/domain/service/richtext_codec.go", "clipboard/clipboard.go", "clipboard/internal/domain/value/text_styles.go"],
  [("encode/decode", "clipboard/internal/domain/service/richtext_codec.go")], ["ConvertHTMLToRTF/ConvertRTFToHTML"])
p("P32", "Terminal operations have exactly their documented effect",
  "On the escape-sequence terminal every cursor, clearing, writing and screen operation, in any sequence and with any coordinates, moves, clears or writes exactly what it says on a conforming terminal and nothing else; raw mode entry and exit restore the line discipline found at first entry, and redundant or unpaired mode changes are reported or harmless.",
  ["histories"], "every sequence of operations and coordinates, on a pseudo-terminal",
  "Tests only check that calls return no error.",
  ["terminal/internal/infrastructure/unix/ansi.go", "terminal/new.go", "terminal/new_unix.go", "terminal/types/types.go"],
  [("ANSI terminal", "terminal/internal/infrastructure/unix/ansi.go")], ["bytes on a pseudo-terminal through an emulator, termios"])
p("P33", "The test terminals obey the same contract as the real one",
  "For any sequence of operations, the mock terminal reports the same mode states and the same kind of errors as the real terminal, records every call exactly once and in order under any concurrency, and returns injected failures; the null terminal accepts the same sequences with no effect. "
  "A program tested against them therefore behaves as on a real terminal.",
  ["histories", "schedules"], "every operation sequence run on both; every schedule of callers",
  "Tests check each mock method alone.",
  ["testing/mock_terminal.go", "testing/null_terminal.go", "terminal/internal/infrastructure/unix/ansi.go"],
  [("MockTerminal", "testing/mock_terminal.go")], ["return values and recorded calls"])
p("P08", "No keystroke is lost or misdelivered around suspend and resume",
  "Every key typed reaches exactly one of the program and the external commands it runs, exactly once and each in the order typed, over any number of suspends, resumes, commands and restarts. What is typed while a command runs (or while the program is suspended) can be read by that command, what is typed while the program runs reaches the program; cycling leaves at most one reader on the input.",
  ["schedules", "histories"], "every timing of typing relative to suspend/resume",
  "Tests suspend with an idle input only.",
  [CR, PG, RD], [("relay goroutine and Cancel", CR), ("start/stopInputReader", PG)], ["bytes offered to and taken from the input, KeyMsg log"])
p("P34", "Immutable values can be shared by any number of goroutines",
  "Styles, colours, themes, component values, boxes, containers, capability records, the null terminal and the width functions may be shared by any number of goroutines that look at them and derive new values from them: no such use races with another, and each gives exactly what it gives when nothing else runs. "
  "Objects that must not be shared (renderers, buffers, mouse handlers, programs) are still independent of each other: any number of them, each used by one goroutine, run side by side without a race and each exactly as if it were alone.",
  ["schedules", "histories"], "every value, every set of operations, every schedule of the goroutines",
  "Tests use values from one goroutine; the few concurrent ones are not run under the race detector and look at style only.",
  ["style/style.go", "style/theme.go", "layout/layout.go", "core/core.go", "core/unicode.go", "testing/null_terminal.go", "components/list/list.go", "components/viewport/viewport.go", "components/table/table.go", "components/input/input.go", "render/renderer.go"],
  [("immutable, safe for concurrent use", "style/style.go"), ("safe for concurrent reads", "core/core.go"), ("independent renderers", "render/renderer.go")], ["every access to memory, results of each goroutine"])
p("P35", "Long use costs no more memory, goroutines or descriptors than short use",
  "Using a value or object over and over takes no more memory after thousands of rounds than after a few (apart from what the caller itself put in and can still see): component, style and theme values derived from one another, a renderer, a mouse handler, a terminal, a theme manager, a clipboard with a bounded history, box and width computations with texts never seen before. "
  "A program that receives messages, runs commands, ticks, suspends, resumes and runs external commands for a long time, and programs run one after another, take no more goroutines and no more open file descriptors than at the start: what a suspend, an external command, the end of the input or the end of the program no longer needs is closed then, not left to the garbage collector.",
  ["histories", "schedules"], "every sequence of operations, of any length",
  "Tests perform a handful of operations and never look at memory, goroutines or descriptors.",
  ["tea/internal/application/program/program.go", "tea/internal/infrastructure/input/cancelable_reader.go", "render/internal/application/renderer.go", "mouse/internal/domain/service/click_detector.go", "components/list/internal/domain/model/list.go", "clipboard/clipboard.go", "components/input/internal/textarea/domain/model/killring.go", "core/internal/domain/service/unicode_service.go"],
  [("bounded history and kill ring", "clipboard/clipboard.go"), ("pipes and goroutines of the input reader are released", "tea/internal/infrastructure/input/cancelable_reader.go")], ["live heap, goroutines and open descriptors after a quarter and all of the rounds"])
P.sort(key=lambda d: d["id"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")

# Statements as the monitors decide them (these replace the drafts above).
S = {
"P12": "The reported width of any string is the sum of the widths of its user-perceived characters: zero for control and non-spacing characters, one for ordinary and two for East Asian wide and emoji characters including their joined and modified sequences, as defined by Unicode, however the string is composed and wherever it is split between characters. Cells built from a string carry it and its width unchanged; sizes are at least 1x1, positions and manual widths never negative and otherwise exactly as given, and adding to a position leaves the original alone.",
"P13": "For every environment the detected colour depth is exactly what the documented rules give: NO_COLOR wins over FORCE_COLOR levels, which win over an absent or dumb TERM (no colour), which wins over COLORTERM, TERM_PROGRAM and 256color TERMs; unrelated variables change nothing, and without colour or ANSI no other capability is claimed. The terminal's own colour count never exceeds what COLORTERM and TERM announce, and deriving a terminal with another size or mode leaves the original and its capabilities as they were.",
  "P14": "Text rendered with any foreground, background and border colours for a terminal of a given capability contains only colour sequences of that capability: none at all without colour, the 16 basic colours, entries 16-255 of the 256-colour palette, or true colour; a foreground is set as foreground and a background as background. "
    "True colour shows exactly the requested RGB value; with 16 or 256 colours the entry shown is a nearest one (least Euclidean RGB distance) of that palette, except that grays (all channels within 10 of their mean) darker than 8 or brighter than 238 may show palette black 16 or white 231. The same holds for border colours. "
    "Colours built from RGB, hex strings (3 or 6 digits, with or without #, anything else an error) or palette numbers have exactly the components these denote.",
  "P15": "Rendering non-empty multi-line Unicode text (plain, or already containing single-line styled parts) with any padding, border (any subset of sides, one-column border characters), margin, and alignment gives exactly the block described: with an alignment, a Width cuts each line at whole characters and fills it up (left, right or centre, the odd column going left) and a Height cuts or fills up the lines (odd line on top); around that come padding, border and margin in this order, each adding exactly its size, so that with any padding, border, margin or aligned width all lines have equal visible width. "
    "Content characters appear unchanged, in order and at the offset this implies; all other cells are border characters or blanks. "
    "All content cells have exactly the requested colours and attributes (already styled parts keep their own in addition), border cells have the border colour if one is set, the background covers everything inside and including the border, and no attribute is active at the end of any line. "
    "If the text plus padding, border sides drawn and margin is outside a minimum or maximum size, or border sides are enabled without a border, the text is returned unchanged.",
  "P16": "Under any concurrent use, calls of the theme manager (Current, SetTheme returning the previous theme, SetPreset by case-insensitive name, MergeTheme, Reset; nil and unknown names changing nothing) return what some sequential order of the calls that respects real time returns: no update is lost and no mixture of two themes is ever seen. "
    "Merging takes the other theme's name and every colour other than the zero value, every border that is not empty and every positive spacing from the other theme, everything else from the first. "
    "Deriving a style or theme with any builder method gives the original with exactly that setting changed and never changes the original or a theme passed as argument; styles can be rendered concurrently with the same result.",
}
S.update(json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "statements.json"))))
for x in P:
    if x["id"] in S: x["statement"] = S[x["id"]]
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
