import json
T='src/tsm/tsm-screen.c'; R='src/tsm/tsm-render.c'; SEL='src/tsm/tsm-selection.c'; U='src/tsm/tsm-unicode.c'; V='src/tsm/tsm-vte.c'
P=[]
def p(id,title,st,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech])))
p('U01','UTF-8 encoding of every code point',
 'Encoding a code point yields its unique shortest UTF-8 byte sequence; surrogates, non-characters (U+FDD0..FDEF and the last two of every plane) and values above U+10FFFF yield zero bytes. The array form returns exactly the concatenation of the single encodings with its exact length and never writes outside its buffer.',
 ['inputs'],'all 2^32 codes; all arrays up to the bound','The tests never call the encoder with more than a few characters; there are 2^32 inputs.',[U],[('encoder','tsm_ucs4_to_utf8'),('array encoder','tsm_ucs4_to_utf8_alloc')])
p('U02','UTF-8 decoding accepts exactly well-formed UTF-8',
 'For any byte string the decoder reports exactly the code points of its well-formed UTF-8 sequences (RFC 3629: no overlong forms, no surrogates, nothing above U+10FFFF) and rejects every ill-formed sequence. After a rejection or any garbage it resynchronises, so that a following well-formed sequence is decoded correctly, and it never reports a value outside the Unicode range.',
 ['inputs'],'all byte strings up to the bound, from the initial state','The tests feed a handful of valid strings.',[U],[('state machine','tsm_utf8_mach_feed'),('result','tsm_utf8_mach_get')])
p('U03','Combined symbols are a faithful, unique encoding of strings',
 'A symbol decomposes to exactly the character sequence it was built from; equal sequences always give the same symbol and different sequences different symbols, and symbols already handed out never change meaning. A failed append (invalid character, maximum length, no memory) returns the symbol unchanged and leaves the table intact; a code point is its own symbol, an unknown symbol (or one without its table) reads as the default character, and all memory is released with the last reference.',
 ['histories','inputs','fault_sequences'],'all append histories up to the bound, all characters, any failing allocations','test_symbol.c only checks a null table and one or two appends.',[U,'src/shared/shl-htable.c','src/shared/shl-array.h'],[('intern table','tsm_symbol_append'),('decompose','tsm_symbol_get')])
p('U04','Character width classification',
 'Every code point has display width 0, 1 or 2: control characters, NUL and zero-width/combining characters have width 0, East Asian wide and full-width characters width 2, all others width 1. Values outside Unicode never have a width above 1.',
 ['inputs'],'all 2^32 codes','No test calls the width function over its domain.',[U,'external/wcwidth/wcwidth.c'],[('width','tsm_ucs4_get_width'),('tables','external/wcwidth/wcwidth.c')])

st=['inputs','histories']
ANY='every screen state (contents, attributes, cursor incl. pending wrap, margins, flags, scrollback, view position) and every argument, within the size bounds; one step, inductive over histories'
p('S01','Screen memory safety and structural invariants',
 'No call of the screen interface (write, newline, scroll, motion, tabs, insert/delete/erase, margins, flags, reset, resize, scrollback, selection, draw, copy), with any arguments and in any state reachable by such calls, reads or writes outside the screen data. After every call: cursor row < height, cursor column <= width + 1, the margins are a valid region, every row has at least width cells and belongs to exactly one place, the active buffer is the one selected by the alternate-screen flag, the scrollback is a consistent list of at most the configured number of lines, and view position and selection refer to existing lines or rows.',
 st,ANY,'Out-of-range effects need particular cursor, margin, argument and history combinations; the tests use a handful of fixed histories.',[T,R,SEL],[('cursor','move_cursor'),('scrolling','screen_scroll_up / screen_scroll_down'),('erase','screen_erase_region'),('resize','tsm_screen_resize'),('selection','tsm-selection.c'),('render','tsm_screen_draw')])
p('S02','Writing a character',
 'Writing a symbol of width w > 0 stores it with its width and attributes at the cursor and advances the cursor by w; a pending wrap first moves to the next line (scrolling the region when at its bottom margin, and only then) in auto-wrap mode, or back to the last column otherwise. In insert mode the rest of the line moves right by w first when the character fits before the last column. A wide character marks its right cell as continuation (width 0). Symbols of width 0 change nothing. No other cell, line or state changes.',
 st,ANY,'Depends on cursor, margins, wrap and insert mode, width and position jointly.',[T],[('write','tsm_screen_write'),('cells','screen_write')])
p('S03','Cursor motion and margins',
 'Absolute motion clamps to the screen, or with relative origin to the scroll region with row 0 at its top; up and down stop at the margin the cursor starts inside of, else at the screen edge; left and right stop at the edge columns; a pending wrap counts as the last column. Setting margins accepts 1 <= top < bottom <= height (0 as top means 1) and otherwise selects the full screen, without moving the cursor. Motions change nothing but the cursor (and the region when asked to scroll at a margin).',
 st,ANY,'All 32-bit counts and all cursor/margin positions.',[T],[('motion','tsm_screen_move_to / _up / _down / _left / _right'),('margins','tsm_screen_set_margins')])
p('S04','Scrolling and line insertion/deletion stay inside the region',
 'Scrolling up or down by n moves exactly the rows between the margins by n, blanks the rows that enter with the default attributes and leaves all other rows alone; on the main screen the rows leaving at the top enter the scrollback in order. Newline, index and reverse index scroll only when the cursor is at the respective margin. Insert/delete line does the same from the cursor row to the bottom margin, puts the cursor in column 0, adds nothing to the scrollback, and does nothing with the cursor outside the margins.',
 st,ANY,'All counts, margins and cursor rows; tests check two or three.',[T],[('scroll','screen_scroll_up / screen_scroll_down'),('lines','tsm_screen_insert_lines / _delete_lines'),('newline','tsm_screen_newline')])
p('S05','Erasing and character insertion/deletion touch exactly their range',
 'Each erase operation (cursor cell, n characters, to end of line, from line start, line, to cursor, from cursor, screen) sets exactly the cells of its reading-order range to blank cells with the default attributes, except protected cells when protection is requested. Insert/delete character moves the rest of the cursor line right/left by n and fills with blanks. Counts beyond the line end act up to the line end; a pending wrap counts as the last column. Erasing does not move the cursor; inserting/deleting only resolves a pending wrap.',
 st,ANY+'; every pattern of protected cells','All cursor positions, counts and protection patterns.',[T],[('erase','screen_erase_region'),('insert/delete','tsm_screen_insert_chars / _delete_chars')])
p('S06','Scrollback is a bounded FIFO with a stable view',
 'The scrollback holds the most recent lines that left the top of the main screen, oldest first, unchanged, and never more than its limit; limit 0 keeps none, lowering the limit drops the oldest. The view position moves up/down by n lines clamped to the oldest line and the live screen; when the oldest line is dropped a fixed position stays on its line while that exists, a non-fixed one stays at its distance from the top; the numeric position always is the index of the first line shown, or the line count when live.',
 st,ANY,'Interaction of capacity, fill, view position and fixed flag over histories.',[T],[('push','link_to_scrollback'),('limit','tsm_screen_set_max_sb'),('view','tsm_screen_sb_up / _down / _page_up / _page_down / _reset')])
p('S07','Resize preserves the visible overlap',
 'A resize to any non-empty size keeps the cells of the overlap of both buffers; when the height shrinks by d the active buffer scrolls up by d first, its top rows entering the scrollback on the main screen. New cells are blank with the default attributes of their own screen. Margins become the full screen, tab stops every eighth column, and the cursor moves with its row and is clamped to the screen. Empty sizes are refused and equal sizes change nothing.',
 st,ANY+'; every old and new size in the bound','Old size x new size x buffer x cursor; tests try a few pairs.',[T],[('resize','tsm_screen_resize'),('grow','line_resize / line_new')])
p('S08','The alternate screen is isolated',
 'While the alternate screen is active, no operation changes a cell of the main screen or the scrollback, however much is written, erased or scrolled. Switching to it and back changes only which buffer is active: both buffers, cursor and scrollback stay as they are.',
 st,ANY,'Needs two buffers compared bit for bit over every operation.',[T],[('switch','tsm_screen_set_flags / tsm_screen_reset_flags'),('no scrollback','screen_scroll_up')])
p('S09','Ageing never hides a change from an incremental renderer',
 'If a renderer skips every cell whose reported age is neither 0 nor greater than the value the previous draw returned, it still shows the same picture as one that redraws everything: after any operation, each cell whose id, character, width or attributes (cursor, inverse mode, selection, view position included) changed reports such an age. This includes the overflow of the 32-bit age counter, which draw reports once by returning 0.',
 st,ANY+'; every age and counter value','Missing an age update is invisible to state-based tests; the counter overflows after 2^32 operations.',[T,R,SEL],[('counter','screen_inc_age'),('cursor','move_cursor'),('reported age','tsm_screen_draw')])
p('S10','Drawing shows every cell exactly once, as it is',
 'One draw calls the callback exactly once per screen cell in reading order, with the lines from the view position on followed by the live rows; cells right of a short scrollback line are blank. Each call carries the cell\'s characters (none for empty cells and blanks that are not underlined), width, attributes and an id that separates differently looking cells; inversion is toggled by the cursor (unless hidden), by inverse mode and by the selection, which covers exactly the reading-order interval between its endpoints. A callback error stops nothing, and drawing changes no state.',
 st,ANY,'Cursor, view position, selection endpoints and narrow lines interact.',[R],[('draw','tsm_screen_draw')])
p('S11','Selection copy returns the selected text',
 'Copying returns a freshly allocated NUL-terminated string and its length: the UTF-8 text of the cells from the first to the last endpoint in reading order whichever was set first, scrollback and screen lines alike, lines separated by one newline; empty cells inside a line count as blanks, trailing empty cells are left out (a first line that starts right of its text contributes nothing), the right half of a wide character contributes nothing. A selection whose text scrolled away entirely copies as the empty string; without a selection the result is -ENOENT.',
 st,ANY+'; every pair of endpoints','Tests cover a few endpoint pairs and ASCII.',[SEL],[('copy','tsm_screen_selection_copy'),('order','norm_selection'),('buffer size','calc_line_copy_buffer')])
p('S12','The selection follows its text',
 'Setting an endpoint at a screen position (clamped to the screen) attaches it to the line shown there, in the scrollback or on the screen. Whenever rows move (scroll, newline, index, insert/delete line, resize), an endpoint in a row that moved moves with it, into the scrollback where its line goes, and endpoints in rows that did not move stay. When a scrollback line is dropped the endpoint becomes "above everything"; when a screen row is discarded it moves to the nearest remaining cell of the region.',
 st,ANY+'; every pair of endpoints','Endpoints, margins, counts, limits and buffers interact.',[T,SEL],[('attach','selection_set'),('scroll','screen_scroll_up / screen_scroll_down'),('drop','link_to_scrollback / tsm_screen_set_max_sb / tsm_screen_clear_sb')])
p('S13','Tab stops',
 'A forward (backward) tab by n moves to the n-th next (previous) set stop or the last (first) column and never causes a pending wrap. Setting, clearing one and clearing all stops act on exactly the cursor column or all columns; reset and resize restore a stop in every eighth column.',
 st,ANY+'; every pattern of stops','All patterns and counts.',[T],[('tabs','tsm_screen_tab_right / tsm_screen_tab_left')])
p('S14','Life cycle and memory exhaustion',
 'Creating (screen or emulator), resizing, copying and setting a palette report -ENOMEM when an allocation fails, leak nothing, leave the object valid and unchanged, and succeed when retried with memory available; scrolling without memory loses at most history. An object lives until its last reference is dropped and then releases every allocation. Every public function called without an object does nothing and returns the neutral value. A new screen is 80x24, empty, cursor at the top left, no margins, no scrollback, tab stops every eight columns.',
 ['fault_sequences','inputs'],'every choice of failing allocations up to the bound','Tests never fail an allocation.',[T,SEL,V],[('create','tsm_screen_new'),('destroy','tsm_screen_unref'),('resize','tsm_screen_resize'),('recycle on failure','screen_scroll_up'),('emulator','tsm_vte_new / tsm_vte_ref / tsm_vte_unref / tsm_vte_set_custom_palette')])

CS='src/tsm/tsm-vte-charsets.c'
si=['inputs','histories']
TW='The expected result is that of the documented ECMA-48/DEC/xterm behaviour, computed by an independent emulator on a second screen.'
p('V01','No input can crash the emulator',
 'Any byte sequence the application sends, in any parser state, mode and screen size, is processed without an invalid memory access, signed overflow or unbounded loop. Afterwards the cursor and margins lie on the screen, which keeps its size; the write callback got readable data, at most one reply per byte, and the OSC callback at most 127 bytes, NUL-terminated.',
 si,'all bytes up to the bound after each parser-state prefix, incl. parameter and OSC overflows, 1x1 and small screens','The byte sequences that overflow a buffer or an index are exactly the unusual ones.',[V,T,CS],[('parser','parse_data / do_action'),('parameters','do_param'),('osc buffer','do_osc_collect / do_osc_end')])
p('V02','Input is a stream: portions do not matter',
 'The effect of a byte sequence on screen, modes, replies and callbacks is the same whether it arrives in one call to tsm_vte_input, split at any place (inside an escape sequence, an OSC string or a UTF-8 character), or byte by byte with empty calls in between. This includes the encoding switches: a sequence that changes the input encoding takes effect for the very next byte.',
 ['inputs','schedules'],'all byte sequences up to the bound in each context x every split point','Where a read() is cut is decided by the kernel; the tests feed whole strings.',[V,U],[('input','tsm_vte_input'),('decoder','tsm_utf8_mach_feed')])
p('V03','Parser: what starts, ends and cancels a sequence',
 'From every parser state every character has its VT500 effect: ESC and CAN/SUB and C1 controls act in any state, abandoning a pending sequence without executing it; C0 controls inside an escape or control sequence are executed at once and the sequence continues; DEL inside is ignored; malformed control sequences are swallowed up to their final character and have no effect; DCS, SOS, PM and APC strings are swallowed up to ST or a cancel; after a final character the parser is in the ground state and printing resumes. '+TW,
 si,'every parser state x every Unicode character (x a second one), then probes','15 states x 0x110000 characters; tests try a few.',[V],[('transitions','parse_data'),('actions','do_trans / do_action')])
p('V04','Control sequence parameters',
 'Up to 16 decimal parameters are used, the 16th included, further ones are ignored; leading zeros do not matter, an omitted parameter has its default and arbitrarily long numbers saturate rather than wrap. Private markers are accepted only first, intermediates only before the final character. A sequence starts with no parameters, markers or intermediates left over from earlier sequences, complete or abandoned. '+TW,
 si,'all digit strings, separators and markers up to the bound','Numbers beyond 2^32 and the 16-parameter limit are not in the tests.',[V],[('parameters','do_param'),('reset','do_clear'),('intermediates','do_collect')])
p('V05','Character attributes (SGR)',
 'SGR applies its parameters left to right: attribute on/off, the 8+8 palette colours, default colours, 256-colour index (16 palette, 6x6x6 cube, 24 greys) and RGB, foreground and background independently; incomplete extended colours change no colour. Bold brightens the 8 basic foreground colours. Characters printed and cells erased, scrolled or inserted afterwards carry exactly the resulting colours and flags. '+TW,
 si,'all one- to three-digit parameters, pairs and extended-colour forms up to the bound, from several previous attributes','The parameter combinations are far too many for the tests.',[V],[('SGR','csi_attribute'),('palette','to_rgb / copy_fcolor')])
p('V06','Modes',
 'Setting or resetting a mode changes exactly the flags and screen modes that belong to its number, DEC private and ANSI numbers being separate; several modes in one sequence act in order; unknown numbers do nothing. 47/1047/1049 switch to and from the alternate screen, clearing and saving/restoring the cursor as xterm does; 9/1002/1003/1006/1016 select mouse tracking and coordinate format and tell the mouse callback. '+TW,
 si,'all mode numbers up to 9999 (pairs in the mouse range), set and reset, from a menu of previous modes','Every number x previous mode; tests check a few.',[V],[('modes','csi_mode'),('flags','set_reset_flag')])
p('V07','Save and restore cursor',
 'DECSC (ESC 7) saves position, attributes, GL/GR selection, auto-wrap and origin mode, and DECRC (ESC 8) restores exactly those whatever happened in between, at the absolute position even if origin mode or margins changed and clamped if the screen shrank. Modes 1048/1049 save and restore the position independently of that. Restoring without a save, or after a reset, gives the home position and defaults; saving does not disturb anything. '+TW,
 si,'all histories of operations from a menu before, between and after save and restore; every cursor position','The interplay with origin mode, margins, charsets and resets is a product of many states.',[V],[('save/restore','save_state / restore_state'),('1048/1049','csi_mode')])
p('V08','Character sets and shifts',
 'Designating ASCII, DEC special graphics or DEC supplemental graphics into G0..G3 and shifting them with SI/SO/LS2/LS3/LS1R/LS2R/LS3R changes the glyphs of exactly the characters 33..126 (GL) and 161..254 (GR) to those of the invoked set; SS2/SS3 affect only the next GL character. All other Unicode characters are always shown as they are. Soft and hard resets restore the default sets. '+TW,
 si,'every designation x shift sequence x character up to the bound','4 sets x 3 tables x 10 shifts x 188 characters.',[V,CS],[('map','vte_map'),('designate','set_charset / do_esc'),('tables','tsm-vte-charsets.c')])
p('V09','Operating system commands',
 'An OSC string is reported to the callback exactly once when BEL, ST or any cancelling control ends it, with the UTF-8 text of its printable characters in order, truncated to the characters that fit into 127 bytes whole, never cut inside a character, and NUL-terminated. Nothing of it reaches the screen, nothing of an earlier string leaks into it, and without a callback it is swallowed. '+TW,
 si,'all characters up to the bound in the body, every terminator, every fill level around the limit','The limit is crossed only by particular byte counts.',[V],[('collect','do_osc_collect'),('report','do_osc_end'),('start','do_action')])
p('V10','Reset erases the past',
 'After a hard reset (ESC c or tsm_vte_hard_reset) in any parser state and after any history, the emulator behaves exactly like a new one on a screen of that size: modes, attributes, charsets, saved cursor, margins, tabs, mouse tracking, input encoding, pending sequences, main screen contents and scrollback are those of the start, and the mouse callback is told when tracking ends. A soft reset does the same for everything but the cell contents, the scrollback and the cursor position. '+TW,
 si,'all pairs from a menu of state-changing sequences (and arbitrary sequences), then probes that reveal leftovers','A forgotten field shows only with the one history that sets it.',[V,T],[('soft','tsm_vte_reset'),('hard','tsm_vte_hard_reset')])
p('V11','Replies to the application',
 'Device attributes, status and cursor position requests (CSI c, CSI > c, DECID, DSR 5/6, ENQ) are answered with exactly the documented bytes, in order, once each; the reported position is the 1-based one, relative to the margins in origin mode, a pending wrap counting as the last column. All other input sends nothing. '+TW,
 si,'all cursor positions on a 12x11 screen, margins, modes; all requests up to the bound','An application that mis-parses a reply hangs; the tests check no position.',[V],[('DSR','csi_dsr'),('DA','csi_dev_attr'),('send','vte_write')])
p('V12','Keyboard',
 'Every key (keysym, ascii fallback, modifiers, character) sends exactly the byte sequence xterm/DEC define for it in the current modes (cursor keys, keypad, newline, backspace, 7/8-bit), Control maps ASCII to control codes, Alt prefixes ESC, other characters are sent in the current encoding and a key without meaning sends nothing and is reported as unhandled. With local echo the same input is processed as received. No state is left behind for the next key. '+TW,
 si,'all 2^32 keysyms x ascii x modifiers x characters, in each combination of modes up to the bound','2^96 combinations of keysym, ascii and character.',[V],[('keys','tsm_vte_handle_keyboard'),('send','vte_write_debug')])
p('V13','Mouse reports',
 'A mouse event is reported exactly when the tracking mode asks for it, as X10, SGR or SGR-pixel sequence with button, modifiers and 1-based cell or pixel coordinates for every coordinate value; X10 clamps what it cannot express. Motion is reported only in any-event mode, repeated motion inside one cell only once. The mouse callback is always told last what would be reported now: clicks, motion or nothing, in cells or pixels. '+TW,
 si,'all coordinates, buttons, modifiers, events; all sequences of three mode changes','Coordinates above 222 and mode orders are not tested.',[V],[('event','tsm_vte_handle_mouse'),('modes','csi_mode')])
p('V14','Input encodings',
 'In UTF-8 mode the application\'s bytes are decoded per RFC 3629, a malformed sequence counting as one replacement character; in 7-bit mode (DECSCL 61) the top bit is ignored, in 8-bit mode (DECSCL 62..64) each byte is the Latin-1 character of that value, C1 controls included. The switch takes effect with the byte after the sequence, and a reset returns to UTF-8 with no partial character pending. '+TW,
 si,'all byte strings up to the bound in every encoding and across switches','All 256^n byte strings.',[V,U],[('decode','tsm_vte_input'),('conformance level','csi_compat_mode'),('reset','tsm_vte_reset')])
p('V15','Palettes',
 'Selecting a palette by name or supplying a custom one makes every palette colour, default foreground and background used from then on exactly that palette\'s, for any custom colours; unknown names and a missing custom palette mean the default palette. Replacing or dropping the custom palette while in use takes effect at once and never leaves colours of the old one; the caller\'s array is copied. '+TW,
 si,'all custom colours; all pairs of palette names','All colour values; use after replacement.',[V],[('select','tsm_vte_set_palette'),('custom','tsm_vte_set_custom_palette'),('apply','vte_update_palette')])
p('V16','Control functions do what ECMA-48 says',
 'Each control character, escape sequence and control sequence has exactly the effect of its definition with its parameters (counts, positions with origin mode and margins, erase selectors, protected erase, tabs, scroll region, insert/delete/scroll), and functions selected by unknown final, intermediate or marker characters do nothing at all. Histories of such functions compose. '+TW,
 si,'every final character x every one- and two-digit parameter x markers/intermediates x every cursor position and margin pair on 4x3; all triples from a menu of 24 functions','Every function x parameter x cursor x margin.',[V,T],[('dispatch','do_csi'),('escape','do_esc'),('controls','do_execute')])
p('V17','Logging is well-formed and changes nothing',
 'Whatever the application sends, each message given to the log function carries the data pointer, a severity of 0 to 7, its place in the code and a format that fits its arguments, every string of them readable. With a log function installed, and with debug messages compiled in, the emulator does exactly what it does without.',
 si,'all bytes up to the bound in each template, messages formatted with whatever values they carry','Messages are emitted for unusual input only; tests install no log function and are built without debug messages.',[V,T,'src/shared/shl-llog.h'],[('messages','llog_debug / llog_warning in do_csi, do_esc, csi_mode, csi_attribute'),('submission','llog_format')])
p('H01','The ring buffer is a byte queue',
 'A shl_ring returns exactly the bytes pushed into it, in order and without loss, across wrap-around and growth: peek shows all of them in at most two pieces, copy writes the first bytes up to the given size and nothing more, pull drops at most what is there, flush and clear empty it, and a cleared ring can be used again. A push that finds no memory or cannot fit the address space fails with -ENOMEM and changes nothing.',
 ['histories','inputs','fault_sequences'],'every size up to the bound, start, fill and content; every following operation','No test covers the ring; wrap-around together with growth needs particular fills.',['src/shared/shl-ring.c','src/shared/shl-macro.h'],[('queue','shl_ring_push / shl_ring_pull'),('growth','ring_grow / ring_resize')])
p('H02','The hash table is a multiset',
 'After any insertions and removals, lookup finds an element with the key exactly when one is stored, remove takes out exactly one such element, visit and clear report every stored element once per insertion, and clear releases the table, which can be used again. Colliding hashes, any element addresses, growth and deleted entries make no difference. An insertion without memory fails with -ENOMEM and changes nothing. The number and string tables behave the same with equality of their keys.',
 ['histories','inputs','fault_sequences'],'all histories of insertions, removals and lookups up to the bound, all addresses and hash values in the bound','The bits stolen from pointers, collisions and tombstones depend on addresses and hash values no test controls.',['src/shared/shl-htable.c','src/shared/shl-htable.h'],[('probing','htable_val / ht_add'),('pointer bits','update_common / make_hval'),('growth','double_table / rehash_table')])
p('H03','The dynamic array is a sequence',
 'After any pushes, pops and resizes a shl_array holds the sequence of elements these describe: pushes append a copy, pop drops the last, a resize keeps the leading elements and fills new ones with zero bytes even when no reallocation is needed, and length and byte size follow. Invalid arguments are refused; an operation that finds no memory fails with -ENOMEM and changes nothing; free releases everything.',
 ['histories','inputs','fault_sequences'],'all histories up to the bound, any failing allocation','No test covers the array beyond a few symbol pushes.',['src/shared/shl-array.h'],[('growth','shl_array_push'),('zero fill','shl_array_zresize')])
p('H04','The shared helpers compute what they say',
 'shl_mult_* store the exact product or, when it does not fit the type, return -ERANGE and leave the value alone. shl_min, shl_max and shl_clamp return the smaller, larger or limited value and evaluate their arguments once. Leaving a block frees, closes (valid descriptors only) or restores errno as its cleanup attributes say; an integer put into a pointer comes back unchanged; shl_container_of finds the object around a member.',
 ['inputs'],'all operands','Overflow boundaries are not tested at all.',['src/shared/shl-macro.h'],[('multiplication','SHL__REAL_MULT / SHL__UPCAST_MULT'),('limits','shl_min / shl_max / shl_clamp'),('cleanup','shl_freep / shl_closep / shl_set_errno')])
p('P01','The pseudo terminal neither loses bytes nor stalls',
 'Bytes given to shl_pty_write reach the terminal exactly once and in order whatever short writes, EAGAIN or EINTR the kernel returns; input reaches the callback exactly once, in order and NUL-terminated. shl_pty_dispatch returns 0 only when the kernel has no more input and all output is written or does not fit; otherwise -EAGAIN or the error, and the bridge then re-arms the edge-triggered descriptor, which stays in its set. Opening either succeeds, with the child holding the slave as its three standard descriptors, own session and the given size, or fails without leaving a descriptor or memory behind; the last reference releases everything.',
 ['fault_sequences','histories','inputs'],'every result of every system call, as a choice of the solver, up to the bound','No test covers the terminal; short writes and interrupted calls cannot be provoked.',['src/shared/shl-pty.c','src/shared/shl-ring.c'],[('output','pty_write'),('input','pty_read'),('dispatch','shl_pty_dispatch / shl_pty_bridge_dispatch_pty'),('set-up','shl_pty_open / pty_init_child / pty_setup_child')])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
