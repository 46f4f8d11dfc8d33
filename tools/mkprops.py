#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Wrapped lines never exceed the requested width",
  "Whenever a text is formatted for a width of at least 3 columns, every resulting paragraph, heading, list item, quote or code line, displayed with its bullet, quote mark, indentation and margins, is at most that many columns wide, as long as the width leaves room after the line's prefix and margins for its widest character. The cached length a formatted line reports is the real displayed length of its content and prefix. Formatting any text for any width never panics.",
  ["inputs", "configurations"], "every markdown or raw source, every skin (indentation mode, margins; bullet and quote mark one column wide), every width; every character has the width unicode-width gives it (sequences whose width depends on the context, as joined emojis, are out of scope)",
  "The wrapping tests try one English text at widths 3 to 49 and one combining-character text; wide characters, deep lists, style changes at every offset, margins and code lines are unbounded in number.",
  ["src/fit/wrap.rs", "src/tokens.rs", "src/composite.rs", "src/text.rs", "src/skin.rs", "src/line_style.rs"],
  [("hard_wrap_composite", "src/fit/wrap.rs"), ("hard_wrap_lines", "src/fit/wrap.rs"), ("tokenize", "src/tokens.rs"), ("add_compound", "src/composite.rs"), ("margins_in", "src/line_style.rs")],
  ["FmtText::lines", "rendered output"], "tokenize and tokens are crate-private")

p("C02", "Wrapping preserves the visible text, its order and its styles",
  "Wrapping a text to a width never loses, invents, reorders or restyles anything visible: for every source line, concatenating the wrapped lines in order gives exactly the source line's characters, each with its bold, italic, strikeout and code flags, except that blank characters may be dropped where a line is cut. Two characters with no blank between them in the source never get a blank between them on a wrapped line. Every line produced from a list item or quote after the first is a continuation of the same kind of line, with no second bullet.",
  ["inputs", "configurations"], "every source line (any number and styling of fragments), every skin, every width of at least 3; every character has the width unicode-width gives it (sequences whose width depends on the context, as joined emojis, are out of scope)",
  "Existing tests compare line lengths and one two-line split; losing a token at one particular offset or style boundary is not observable by them.",
  ["src/fit/wrap.rs", "src/tokens.rs", "src/composite.rs"],
  [("hard_wrap_composite", "src/fit/wrap.rs"), ("follow_up_composite", "src/fit/wrap.rs"), ("tokenize", "src/tokens.rs"), ("to_compound", "src/tokens.rs")],
  ["FmtText::lines", "rendered output"], "tokenize and tokens are crate-private")

p("C03", "Code blocks are justified to one width which fits the area",
  "In a formatted text, a code block is a maximal run of consecutive code lines, and all displayed lines of one block have the same width: the width of the block's longest line, reduced if necessary to the available width less the code margins, painted with the code background over this whole width. Lines which aren't code lines are never padded by this and their content is left unchanged. Blocks separated by any other kind of line are justified independently.",
  ["inputs", "configurations"], "every sequence of lines of any kinds, every width",
  "No existing test looks at code blocks; the property is about every arrangement of runs of code lines in a text.",
  ["src/code.rs", "src/spacing.rs", "src/text.rs", "src/fit/wrap.rs"],
  [("find_blocks", "src/code.rs"), ("justify_blocks", "src/code.rs"), ("CodeBlock::justify", "src/code.rs")],
  ["FmtText::lines", "rendered output"], "code module is crate-private")

p("C04", "Tables are rectangular and fit the width",
  "For every table and every width of at least 5 columns, all rows and rules of the displayed table have the same number of columns and exactly the same total width, which is at most the requested width; every column is at least 3 wide and its content is never wider than its column, provided the column leaves room after a cell's bullet or quote mark for its widest character. Column widths are only reduced when the natural widths do not fit, in which case the whole available width is used, and columns are only dropped when even 3 cells per column do not fit. No text of a kept column is lost, and the cells after a rule are aligned as this rule says, those before any rule being centered. Laying out a table never panics.",
  ["inputs", "configurations"], "every number of columns and rows, every cell width and content, rows of unequal length, every available width; every character has the width unicode-width gives it (sequences whose width depends on the context, as joined emojis, are out of scope)",
  "Existing tests render no table under a width constraint; the column-width arithmetic has several divisions and subtractions over unbounded inputs.",
  ["src/fit/tbl_fit.rs", "src/tbl.rs", "src/skin.rs"],
  [("TblFit::new/see_cell/fit", "src/fit/tbl_fit.rs"), ("Table::fix_columns", "src/tbl.rs"), ("find_tables", "src/tbl.rs"), ("FmtTableRule::set_nbcols", "src/tbl.rs")],
  ["TblFit results", "FmtText::lines", "rendered output"])

p("C05", "Alignment and completion fill exactly the rendering width",
  "When a formatted line is rendered with completion for a given width and fits in it, the output covers exactly that many columns; left, right and centered content is placed at the start, at the end, or with the left space equal to the right one or one smaller. Padding a content for an alignment never adds space when the content is already as wide as the target. Cells made of one-column characters written in a column of a given width cover exactly that width, being truncated or completed as needed.",
  ["inputs", "configurations"], "every content width, target width, alignment, margins and line kind",
  "No existing test checks the rendered width of an aligned or completed line; off-by-one errors depend on parity and on margins.",
  ["src/spacing.rs", "src/skin.rs", "src/composite.rs", "src/line_style.rs"],
  [("Spacing::completions", "src/spacing.rs"), ("Spacing::write_counted_str", "src/spacing.rs"), ("write_fmt_composite", "src/skin.rs"), ("extend_width/completions", "src/composite.rs"), ("margins_in", "src/line_style.rs")],
  ["rendered output"])

p("C06", "Fitting a composite with ellipsis respects the width and the content",
  "Shortening a plain styled line to a maximum width always gives a line whose displayed width is at most that maximum, whatever the alignment, and its cached length is exact; a line that already fits is left untouched. What remains is, in order and with unchanged styles, part of the original characters with each removed run replaced by one ellipsis; with a left alignment only the end is removed and with a right alignment only the start. It never panics.",
  ["inputs", "configurations"], "every list of styled fragments (empty, wide and zero-width characters included), every maximum width, every alignment; every character has the width unicode-width gives it (sequences whose width depends on the context, as joined emojis, are out of scope)",
  "The single fitting test tries a few ASCII strings; cutting depends on byte offsets, wide characters and fragment boundaries.",
  ["src/fit/composite_fit.rs", "src/composite.rs"],
  [("Fitter::fit", "src/fit/composite_fit.rs"), ("Zone::cut/token/compounds", "src/fit/composite_fit.rs"), ("fit_width", "src/composite.rs")],
  ["FmtComposite after fit_width / fill_width"])

p("C07", "Cropped writing never covers more columns than allowed",
  "Measuring how much of a string fits in a number of columns returns a prefix cut on a character boundary which is at most that wide and is the longest such prefix reached before the first character that doesn't fit, tabs counting as their replacement. A cropping writer never emits, over any sequence of calls, more columns than its limit, and its remaining allowance always equals the limit minus the columns written. Filling writes exactly the requested number of filling characters, whatever the count.",
  ["inputs", "histories"], "every string (tabs, wide and zero-width characters), every limit, every sequence of writes and fillings; every character has the width unicode-width gives it (sequences whose width depends on the context, as joined emojis, are out of scope)",
  "The existing test has nine strings; accounting over sequences of calls and byte/char/column confusions is only visible on unusual mixes.",
  ["src/fit/str_fit.rs", "src/fit/crop_writer.rs", "src/fit/filling.rs"],
  [("StrFit::from", "src/fit/str_fit.rs"), ("CropWriter", "src/fit/crop_writer.rs"), ("Filling", "src/fit/filling.rs")],
  ["returned counts and strings", "bytes written", "remaining allowance"])

p("C08", "Input content: cursor and selection always stay valid",
  "Whatever sequence of editing, moving, selecting and clearing operations is applied to an input's content, it never panics, there is always at least one line, the cursor is always between the start and the end of an existing line, and so is the other end of the selection, if any. Positions requested outside of the content are brought back inside. Moving operations report true exactly when the cursor moved and never change the text.",
  ["histories", "inputs"], "every content, cursor and selection reachable by any history of operations, with any characters and positions",
  "The tests play one scripted edit; a cursor left outside of the content only shows several operations later.",
  ["src/views/input_field_content.rs", "src/views/pos.rs"],
  [("make_valid_pos / fix_selection", "src/views/input_field_content.rs"), ("all public operations", "src/views/input_field_content.rs")],
  ["cursor_pos, selection, lines, absence of panic"], "content type is crate-private",
  [("pos, selection_tail, lines", "cursor, selection, text", "src/views/input_field_content.rs")])

p("C09", "Input content: each edit changes exactly what it should",
  "Seen as one string with line breaks, inserting a character or string puts it exactly at the cursor and moves the cursor after it; deleting backward or forward removes exactly the one adjacent character or line break (forward deletion on an empty last line removes this line); deleting a word removes one contiguous run of the cursor's line next to the cursor, which may be empty only at an end of the line; moving a line swaps two neighbour lines and keeps the cursor on the moved line; everything else is left unchanged. Carriage returns and backspaces are never inserted. Setting a string then reading the content gives the same string back, apart from those skipped characters.",
  ["histories", "inputs"], "every content, cursor position and inserted character or string",
  "One scripted test covers a handful of positions; edits at line ends, on empty lines and on the last line each take different branches.",
  ["src/views/input_field_content.rs"],
  [("insert_char / insert_new_line / insert_str / set_str", "src/views/input_field_content.rs"), ("del_char_left / del_char_below / del_word_left / del_word_right", "src/views/input_field_content.rs"), ("move_current_line_up / down, swap_lines", "src/views/input_field_content.rs")],
  ["content as string and cursor position before and after each operation"], "content type is crate-private")

p("C10", "Cutting removes exactly what copying returns",
  "For every content and selection, removing the selection deletes exactly the characters and line breaks that reading or copying the selection returns, leaves the text before and after unchanged, puts the cursor where the selection started and clears the selection; inserting the cut string there restores the original text. When the selection is just the cursor, removal is the deletion of the character under the cursor.",
  ["inputs", "histories"], "every content of any number of lines, every pair of cursor and selection end, in both directions",
  "No existing test removes a multi-line selection; the branches depend on both ends being at the start, middle or end of their lines.",
  ["src/views/input_field_content.rs", "src/views/input_field.rs"],
  [("del_selection", "src/views/input_field_content.rs"), ("selection / selection_chars", "src/views/input_field_content.rs"), ("cut_selection / replace_selection", "src/views/input_field.rs")],
  ["selection string, content string and cursor before and after"], "content type is crate-private")

p("C11", "Input field: cursor kept in view, drawing kept inside the area",
  "After any event or operation moving the cursor of a focused input field, the line of the cursor is one of the displayed lines, and the vertical scroll never leaves blank rows below the text when it's longer than the area. Rendering the field writes exactly the rows and columns of its area, never outside of it, shows the characters of the scrolled lines in their right place, and any terminal cursor position it returns is inside the area.",
  ["histories", "inputs", "configurations"], "every content (wide characters included), every cursor move, resize and focus change, every area of at least 3 columns and one row",
  "No existing test scrolls or renders an input field; the scroll state depends on the whole history of moves and resizes.",
  ["src/views/input_field.rs", "src/area.rs"],
  [("fix_scroll", "src/views/input_field.rs"), ("display_on", "src/views/input_field.rs"), ("scroll_up / scroll_down / apply_*_event", "src/views/input_field.rs")],
  ["scroll(), content().cursor_pos(), bytes written by display_on"])

p("C12", "Scrollable text views stay within their content",
  "Starting from a valid position, no sequence of scrolling operations or keys, by lines or pages and with any amount, makes a view of a text, in an area of at least one row, scroll before its first line or past the position where its last line is at the bottom of the area. Each operation moves by the documented amount unless a bound stops it, and reports, when it reports, true exactly when the position changed; resizing a markdown view keeps its position valid. Rendering writes each visible line, from the scroll position, on its own row of the area with nothing outside of the area when the lines fit its width.",
  ["histories", "inputs"], "every content height, area height, scroll position and amount, every sequence of operations",
  "There is no test of the views; bounds depend on arithmetic between content height, area height, position and amount.",
  ["src/views/text_view.rs", "src/views/mad_view.rs"],
  [("set_scroll / try_scroll_lines / try_scroll_pages", "src/views/text_view.rs"), ("line_up / line_down / page_up / page_down", "src/views/text_view.rs"), ("MadView scrolling", "src/views/mad_view.rs")],
  ["scroll, returned booleans, bytes written"])

p("C13", "The scrollbar thumb is always inside its track and faithful",
  "For every scroll position, content height and area, there is a scrollbar exactly when the content is higher than a non-empty area, and its thumb is a non-empty range of rows inside the area's rows. For a valid scroll position and at least 2 rows, the thumb starts on the first row exactly when nothing is hidden above; it touches the last row whenever nothing is hidden below and, for areas of more than 3 rows, otherwise ends before the last row unless it starts there; and it never moves up when the scroll increases.",
  ["inputs"], "every scroll, content height, available height and top",
  "The computation has no test; integer divisions and corrections at both ends matter for particular ratios of heights.",
  ["src/area.rs"],
  [("compute_scrollbar", "src/area.rs"), ("Area::scrollbar", "src/area.rs")],
  ["returned rows"])

p("C14", "Areas and rectangles: geometry is exact",
  "An area contains a cell exactly when its column is in [left, left+width) and its row in [top, top+height); padding removes exactly the asked margins on both sides, and padding for a maximum width leaves an area of at most this width, centered to within one column, with rows unchanged. Drawing a rectangle of at least 2 by 2 cells writes its border once around the exact perimeter with the right corner at each place, its inside only when filling is asked, and nothing outside of the area.",
  ["inputs", "configurations"], "every area whose right and bottom fit the coordinate type, every padding, every border style",
  "There is no test of areas and rectangles.",
  ["src/area.rs", "src/rect.rs"],
  [("Area::contains / pad / pad_for_max_width / right / bottom", "src/area.rs"), ("Rect::draw", "src/rect.rs")],
  ["returned values, area fields, cells written"])

p("C15", "List view: counts, selection, scroll and columns stay consistent",
  "After any sequence of adding, filtering, sorting, clearing, selecting and scrolling operations on a list in an area of at least one row, the number of displayed rows equals the number of rows accepted by the current filter, the selection if any is the index of an existing row, the scroll never exceeds the number of rows, and nothing panics. Selecting the next or previous row gives a displayed row, the nearest one in the asked direction with wrap-around, and when no row is filtered out and at least 3 but not all rows can be shown, the selected row is among the shown ones after selecting or scrolling. When there is room for the minimal widths, column widths are each between their minimum and maximum and together with separators and scrollbar fit the area. Drawing gives a line of titles, a separator line, then on each following line of the area the next displayed row from the scroll position while there's one; with one-column characters, titles and cells are each fitted to the width of their columns, so that all lines are aligned, and a column's title is the one given with it, equal neighbours being merged.",
  ["histories", "inputs", "configurations"], "every set of rows, filter, order, area, column bounds and every sequence of operations",
  "There is no test of the list view; the state couples four fields across a dozen operations.",
  ["src/views/list_view.rs"],
  [("add_row / set_filter / remove_filter / clear_rows", "src/views/list_view.rs"), ("try_select_next / select_first_line / select_last_line", "src/views/list_view.rs"), ("try_scroll_lines / scroll_to_bottom / make_selection_visible", "src/views/list_view.rs"), ("update_dimensions", "src/views/list_view.rs"), ("ListView::new / write_on", "src/views/list_view.rs")],
  ["row_counts, get_selection, rendered output, absence of panic"])

p("C16", "Styles survive being written and parsed back",
  "Writing a color, attribute, alignment, compound style, line style or styled character as style text and parsing that text gives the same value back, for named colors other than black and white, ANSI and RGB colors, the bold, dim, italic, underlined, reverse, crossed out, encircled and overlined attributes, margins below 65536, and characters which are not blank, digits or parentheses. In a style text the first color (or the word none) is the foreground, the next one the background, the first number the left margin and the second the right one, whatever the other tokens and their order.",
  ["inputs"], "every style made of supported colors, attributes, alignment and margins, every sequence of style tokens",
  "One test round-trips the default skins; a color name that parses as another one or a swapped field only shows with the right combination.",
  ["src/parse/mod.rs", "src/parse/parse_color.rs", "src/parse/parse_compound_style.rs", "src/parse/parse_line_style.rs", "src/parse/parse_styled_char.rs", "src/parse/parse_attribute.rs", "src/parse/parse_align.rs"],
  [("From<&[StyleToken]>", "src/parse/parse_compound_style.rs, src/parse/parse_line_style.rs"), ("push_style_tokens", "src/parse/"), ("parse_style_tokens / parse_style_token / parse_color", "src/parse/")],
  ["parse and write functions"])

p("C17", "A question only returns its default or one of its declared keys",
  "Asking a question returns the typed line, without its trailing blanks, when it is one of the declared keys, and the default answer when there is one and the line is blank; any other line is refused and another one is read. A default is reported as exotic exactly when it is set and is none of the declared keys.",
  ["inputs", "histories"], "every set of answers and default, every sequence of typed lines",
  "The doc tests only compile the macro; no answer is ever typed.",
  ["src/ask.rs"],
  [("Question::ask / has_exotic_default / set_default / add_answer", "src/ask.rs")],
  ["returned string for given standard input"])

p("C18", "Styles compose field by field and styled characters stay in sync",
  "Overwriting a style with another one takes the other's foreground and background when they are set, keeps the own ones otherwise, and has the attributes of both; the style used for a fragment is its line's style overwritten in turn by those of italic, strikeout, bold and code exactly when the fragment has them (a fragment which is just an ellipsis having the ellipsis style). Blending a style changes its foreground only from its foreground and its background only from its background, leaving unset colors unset. A styled character always prints its current character in its current style, after any sequence of setters.",
  ["inputs", "histories"], "every combination of styles, flags, colors, and every sequence of style changes",
  "No test looks at composed styles; a wrong field only shows with two styles disagreeing on this field.",
  ["src/compound_style.rs", "src/styled_char.rs", "src/skin.rs"],
  [("overwrite_with / blend_with", "src/compound_style.rs"), ("StyledChar setters", "src/styled_char.rs"), ("MadSkin::compound_style", "src/skin.rs")],
  ["style fields, printed sequences"], None,
  [("styled_char", "cached printed form", "src/styled_char.rs")])

p("C19", "The event source delivers every event in order with right double clicks",
  "The events read from the terminal are sent to the receiver of the event source in the order they were read, none twice; each is sent only after the previous one was followed by unblock, and unblock(true) ends the source. Are not sent as events: mouse moves, mouse drags and keys with no key combination when the options tell to discard them, and escape sequences, that is the keys from alt-_ to the next alt-\\ when none in between has alt or control and no other event interrupts them, which are sent whole on the receiver of escape sequences when there is room for them; the keys of an interrupted sequence are sent as events. A press or release of the left button is flagged as a double click exactly when it's at the place of the last release of the left button sent, less than 700 ms after it; the shared count is the number of events sent.",
  ["schedules", "histories"], "every sequence of terminal events and timings, every combination of options, every answer of the receiver",
  "It needs a terminal and a thread; no test covers it.",
  ["src/events/event_source.rs", "src/events/timed_event.rs", "src/events/escape_sequence.rs"],
  [("EventSource::with_options and its thread", "src/events/event_source.rs"), ("unblock / receiver / escape_sequence_receiver / shared_event_count", "src/events/event_source.rs"), ("TimedEvent::new / as_click", "src/events/timed_event.rs")],
  ["received events and sequences, double_click, shared count"])

p("C20", "Tickers send the asked number of ticks and stop when asked",
  "A beam asked for a number of ticks sends its payload exactly that many times (an endless one, for ever), each time after a new period, unless it receives a stop, after which it sends nothing any more. Stopping a beam stops this one only; stopping all beams, or dropping the ticker, stops each of them. The ids of the beams of a ticker are all different.",
  ["schedules", "histories"], "every set of beams, periods and stop instants, every sequence of calls on the ticker",
  "It needs threads and time; no test covers it.",
  ["src/events/tick_beam.rs"],
  [("Ticker::start_beam / stop_beam / stop_all_beams / Drop", "src/events/tick_beam.rs"), ("Ticker::tick_once / tick_several_times / tick_infinitely", "src/events/tick_beam.rs")],
  ["received payloads"])

p("C21", "A progress bar shows its part and never exceeds its length",
  "A progress bar with a part between 0 and 1 and a length up to 2^24, printed without width nor precision, is made of full blocks followed by at most one partial block (of 1 to 7 eighths of a character). It has at most as many characters as its length; it is exactly its length of full blocks for a part of 1 and is empty for a part of 0; of two bars of the same length, the one with the greater part is not the less filled; and for a length up to 65536 the number of filled eighths of characters is the nearest one to eight times the length times the part, up to the precision of floats.",
  ["inputs"], "every floating-point part in [0, 1], every length up to 2^24",
  "There is no test; rounding of the last partial cell matters at particular values.",
  ["src/views/progress.rs"],
  [("Display for ProgressBar", "src/views/progress.rs")],
  ["printed string"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
