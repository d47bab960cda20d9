P = []
NA = {}
def prop(id, title, statement, q, why, files, mech, obs, note, over=('inputs',)):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), q=q, why=why, files=files, mech=mech, obs=obs, note=note))
TTY = ['libtty/tty.c', 'libtty/tty.h', 'libtty/charsets.c']
BND = ('Within the stated bounds (screens of a few cells, one or a few input bytes from an arbitrary valid state, unwinding '
       'assertions on) the SAT solver decides every value; nothing is claimed outside them. ')
WID = 'Character widths are a model with every possible outcome (-1,0,1,2); C14 ties the real tables to Unicode. Allocation is assumed to succeed. '
TEST = 'The tests feed a few dozen fixed recordings to an 80x25 or 20x5 terminal and compare a dump; '

prop('C01', 'Terminal input never corrupts memory',
 'Whatever bytes are written to an emulated terminal, in whatever state it is (cursor anywhere including past the last column, any scrolling region, any parser state, any parameters, any combining marks), no memory outside its buffers is read or written, no arithmetic traps, and processing ends.',
 'every byte from every valid terminal state; combining-mark tables of every layout up to the bound', TEST + 'a stray access needs a particular cursor/parameter/width combination.',
 TTY, [('tty_write state machine', 'libtty/tty.c: tty_write'), ('screen array', 'libtty/tty.c: tty_init, scr')], ['tty_write() under bounds, pointer, signed-overflow and shift checks'],
 BND + WID + 'One inductive step per byte: the state before is any state satisfying the C02 invariant.', ('inputs', 'histories'))
prop('C02', 'Terminal structural invariants',
 'After any input the screen is well formed: cursor, saved cursor and scrolling region lie within it, every cell holds one narrow character or half of an intact wide pair, a wide character never has just one half, attributes have no stray bits, and the combining marks form disjoint chains that are owned by exactly one cell each or are free.',
 'every input byte applied to every state satisfying the invariant, so histories of any length', TEST + 'none of them inspects the half-cells or the marks table.',
 TTY, [('CJK damage handling', 'libtty/tty.c: cjk_damage_left/right'), ('marks', 'libtty/tty.c: tty_add_comb, tty_kill_comb')], ['public fields of struct tty after tty_write()'],
 BND + WID + 'Inductive: any invariant state, one byte, the invariant again.', ('inputs', 'histories'))
prop('C03', 'Chunking independence',
 'The effect of a byte stream on a terminal (screen, cursor, modes, title, and events reported) depends only on the bytes, never on how they are cut into writes; a zero-length write does nothing.',
 'every split point of representative sequences with symbolic bytes, from arbitrary states', TEST + 'the splits of a recording are those that happened to be recorded.',
 TTY, [('parser state kept in the terminal', 'libtty/tty.c: tty_write')], ['two terminals: one write against two'],
 BND + WID + 'Sequences up to the listed lengths; every split of each.', ('inputs', 'schedules'))
prop('C04', 'Printing, wrapping, scrolling and control characters',
 'Printing a character puts it with the current attributes at the cursor and advances by its width; at the right edge the wrap is delayed until the next character and obeys the auto-wrap mode, wide characters are never split between lines; BS, TAB, LF, VT, FF, CR, ESC D, ESC E and ESC M move the cursor or scroll exactly the scrolling region as on a VT100, bringing in blanks; halves of wide characters overwritten become damaged blanks.',
 'every character, cursor column, region, screen content and attribute on small screens', TEST + 'what happens in the last column with a wide character inside a region is never exercised.',
 TTY, [('tty_char', 'libtty/tty.c: tty_char'), ('scroll', 'libtty/tty.c: scroll')], ['screen cells, cursor'],
 BND + WID + 'Judged against an independent reference terminal (h/refterm.h).')
prop('C05', 'Cursor motion, save/restore, regions and modes',
 'Every cursor sequence (CUU, CUD, CUF, CUB, CNL, CPL, CHA, VPA, CUP) moves exactly as far as its parameters say, clamped to the screen, with absent and zero parameters defaulting to 1; ESC 7/8 save and restore cursor, attributes and charsets; ESC[r sets only valid regions and homes the cursor to the top of it; mode sequences set just their mode; nothing else on screen changes.',
 'every 32-bit parameter value, every cursor position, region and content', TEST + 'with a handful of small parameters.',
 TTY, [('CSI dispatch', 'libtty/tty.c: tty_write')], ['screen cells, cursor, modes'],
 BND + WID + 'All values of the parameters are covered, not only small ones.')
prop('C06', 'Erasing, inserting and deleting',
 'ED, EL, ECH, ICH, DCH, IL and DL affect exactly the cells they are defined to (erasing to and from the cursor includes the cursor\'s own cell), shift the others by the clamped count without losing or duplicating them, fill with blanks of the current colour, leave halves of cut wide characters blank, and IL/DL act only within the scrolling region.',
 'every count, cursor position, region, content and attribute', TEST + 'with few counts and no wide characters at the cuts.',
 TTY, [('tty_clear_region', 'libtty/tty.c: tty_clear_region'), ('CSI @PXLMJK', 'libtty/tty.c: tty_write')], ['screen cells, cursor'],
 BND + WID + 'Judged against the reference terminal.')
prop('C07', 'Attributes and colours',
 'An SGR sequence with any list of parameters changes the current attributes as defined: each code in order, 38/48 in their 5;n and 2;r;g;b forms, colons as well as semicolons where accepted, truncated forms leaving things unchanged, unknown codes ignored; characters printed later carry exactly the resulting attributes.',
 'every list of up to the bounded number of parameters, every 32-bit value, every previous attribute', TEST + 'for some codes one at a time.',
 TTY, [('set_attr', 'libtty/tty.c: case \'m\'')], ['the attribute word of the terminal'],
 BND + 'Judged against an independent reference.')
prop('C08', 'UTF-8, CP437 and charset decoding',
 'In UTF-8 mode any byte sequence decodes to the code points the encoding defines, with overlong forms, invalid bytes and surrogates replaced or recombined consistently, BOMs dropped and the decoder resynchronising at once after an error; in CP437 mode and with the graphic charsets each byte shows the character of the published tables.',
 'all byte sequences of bounded length from every decoder state; all 256 bytes of each charset', 'The tests have a few valid strings and one file of malformed ones.',
 TTY + ['libtty/charsets.h'], [('UTF-8 decoder', 'libtty/tty.c: tty_write'), ('tables', 'libtty/charsets.c')], ['cells after tty_write()'],
 BND + 'The tables are compared with independently written ones.')
prop('C09', 'Escape sequence parsing and resynchronisation',
 'Unknown, malformed or overlong escape sequences have no effect beyond being skipped, controls embedded in them work, CAN, SUB and ESC abort them, too many parameters are dropped without harm, OSC strings end at BEL or ST and set the title (bounded in length), and afterwards ordinary text prints normally.',
 'sequences with symbolic bytes of bounded length', TEST + 'with very few malformed sequences.',
 TTY, [('parser states', 'libtty/tty.c: tty_write'), ('OSC', 'libtty/tty.c: osc()')], ['screen, title, parser state'],
 BND + WID + 'MAXOSC is scaled down to 8 for the length limits.', ('inputs', 'histories'))
prop('C10', 'Resizing keeps what fits',
 'Resizing, by call or by ESC[8;h;wt where allowed, keeps the top left part of the screen and its combining marks, blanks what is new, turns wide characters cut by the edge into blanks without leftover marks, clamps the cursor, resets the region, and reports the new size; refused or unreasonable sizes change nothing.',
 'every content, cursor and region for each pair of small sizes', 'One test resizes, without wide characters or marks.',
 TTY, [('tty_resize', 'libtty/tty.c: tty_resize')], ['screen, marks, l_resize event'],
 BND + WID + 'Size pairs up to 5x4.', ('inputs', 'configurations'))
prop('C11', 'Events mirror the terminal completely',
 'A listener that sees only the events of a terminal (characters, marks, clears, scrolls, cursor moves, flags, resizes) and applies each to its own copy always ends up with the same screen, cursor and flags as the terminal itself, and is given a flush per write.',
 'every control, printing and CSI operation from arbitrary states on small screens', 'One test logs the events of one session; nothing checks that they suffice.',
 TTY, [('l_* callbacks', 'libtty/tty.c')], ['callbacks set in struct tty'],
 BND + WID + 'The mirror is the harness\' own (h/mirror.h).', ('inputs', 'histories'))
prop('C12', 'Copies are equal and independent; reset restores defaults',
 'A copy of a terminal equals the original in everything it displays and in its parser state, shares no memory with it and carries no listeners, so later input to one never changes the other, and both can be freed; a reset (by call or by ESC[c) brings back a blank screen, home cursor, default modes, attributes, charsets and region whatever came before.',
 'every state including parser states, title, marks', 'Nothing tests tty_copy; reset is tested from one state.',
 TTY, [('tty_copy', 'libtty/tty.c: tty_copy'), ('tty_reset', 'libtty/tty.c: tty_reset')], ['struct tty of both'],
 BND + WID, ('inputs', 'histories'))
prop('C13', 'The real terminal shows what the emulated one does',
 'What is written to a real terminal when an emulated one is attached to it, either as a full redraw or as updates after each write, makes a standard terminal show the same characters and attributes with the cursor in the same place, uses only well-formed sequences a standard terminal accepts, leaves no scrolling region behind, and stays inside the real screen if the two differ in size.',
 'every operation from arbitrary states; sizes equal and different', 'One test mirrors one input onto a terminal of the same size and compares characters, not attributes, cursor or sequences.',
 ['libtty/vtredir.c', 'libtty/tty.c'], [('vtvt_*', 'libtty/vtredir.c')], ['bytes written to the FILE, interpreted by a reference terminal'],
 BND + WID + 'fprintf and friends are replaced by an interpreter of their format and arguments. If the emulated screen is the taller one, content scrolled in from below the real screen is outside the claim.', ('inputs', 'histories', 'configurations'))
prop('C14', 'Character widths follow Unicode',
 'The column width of every 32-bit character value is that of the Unicode tables this version implements (Unicode 5.0, M. Kuhn): 0 for NUL and combining marks, -1 for controls, 2 for wide East Asian characters, 1 otherwise.',
 'all 2^32 values', 'The test samples some characters.',
 ['libtty/wcwidth.c'], [('mk_wcwidth', 'libtty/wcwidth.c')], ['mk_wcwidth(c)'],
 'Decided for all 2^32 values with the complete binary searches unwound. The reference is a transcription of the published ranges as of this version, kept in h/width_ref.h.')
FMT = ['libtty/formats.c', 'libtty/formats.h']
FT = 'The tests play and convert a dozen fixed recordings and compare the output; '
IO = 'Standard I/O is replaced by files in memory that work as documented. '
prop('C15', 'Colour conversion is exact',
 'Converting a colour between the 16-colour, 256-colour and true-colour notations (types given either way) always gives a valid colour of the target: itself within the same notation, the published palette entry when going up, the same colour when going down if the target palette has it, and otherwise a similar one: greys stay grey, a primary that is absent is never shown, the dominant one is, dark stays dark and light bright.',
 'all 2^32 values, all pairs of notations', 'No test converts a colour.',
 ['libtty/colors.c', 'libtty/tty.h'], [('palette and search', 'libtty/colors.c: tty_color_convert')], ['tty_color_convert()'],
 'Decided for every value, without a bound; judged against the published palettes.')
prop('C17', 'ttyrec recordings round-trip',
 'What the ttyrec recorder writes is exactly the ttyrec format (12-byte little-endian headers, data), and playing any file in that format shows exactly its data, split into frames at the right times, at any frame size relative to the buffers, with the date of the recording reported; a truncated recording plays every complete frame and ends cleanly; appending continues with the proper time.',
 'all data and times in sequences of frames of bounded lengths; truncation at every byte', FT + 'frames there fit in the buffer, none is truncated.',
 FMT, [('record_ttyrec', 'libtty/formats.c: record_ttyrec'), ('play_ttyrec', 'libtty/formats.c: play_ttyrec')], ['bytes written; synch_* callbacks of the player'],
 BND + IO + 'BUFFER_SIZE is scaled down so that its edges are within reach.', ('inputs', 'crash_points'))
prop('C18', 'nh_recorder recordings round-trip',
 'What the nh_recorder recorder writes is exactly that format (data with NUL-prefixed times in hundredths of a second since the start), and playing any file in that format shows exactly its data at its times, wherever timestamps fall relative to the read buffer; a truncated recording plays all that is there and ends cleanly.',
 'all data and times in frame sequences of bounded length; timestamps across every offset of the read buffer; truncation at every byte', FT + 'the fixed recordings are shorter than the buffer.',
 FMT, [('record_nh', 'libtty/formats.c: record_nh_recorder'), ('play_nh_recorder', 'libtty/formats.c: play_nh_recorder')], ['bytes written; synch_* callbacks of the player'],
 BND + IO + 'BUFFER_SIZE is scaled down.', ('inputs', 'crash_points'))
prop('C20', 'asciicast recordings are read per specification',
 'Playing an asciicast (v1 or v2) first sets the terminal to UTF-8 and the declared size, reports the date, then shows the text of each output event at its time (v2: absolute, v1: relative), with every JSON escape decoded (\\uXXXX and surrogate pairs to UTF-8), numbers with fractions and exponents read properly, other event types and unknown header fields skipped.',
 'every string byte, escape, hex digit, number digit and event type in its place, in v1 and v2 files', FT + 'two casts have few escapes and plain numbers.',
 ['libtty/asciicast.c'], [('JSON subset parser', 'libtty/asciicast.c: eat_string, eat_float, eat_int'), ('player', 'libtty/asciicast.c: play_asciicast')], ['synch_* callbacks of the player'],
 BND + IO + 'Fixed surroundings with symbolic bytes in one place at a time; path-wise symbolic execution.')
prop('C22', 'Automatic, live and plain playing and recording',
 'Without a format given, a ttyrec and an asciicast are recognized by their beginning and played as such with nothing lost, and anything else is shown live: every byte, once, in order, at the time it came at, however it arrives and however short it is. Plain files are shown in full at 2400 baud. Recording live outputs everything at once, never sooner after the previous frame than recorded, sleeping no longer than needed; recording as ansi writes just the data.',
 'all data up to the bound, several divisions into reads, all clock values', 'No test uses any of these players or recorders on anything but one small file.',
 ['libtty/formats.c'], [('play_auto', 'libtty/formats.c: play_auto, is_asciicast'), ('play_live, record_live', 'libtty/formats.c: play_live, record_live'), ('play_baudrate', 'libtty/formats.c: play_baudrate')], ['synch_* callbacks; what is written, slept'],
 BND + 'Files and the clock are modelled. In what is neither, the second or the third word of the first 12 bytes is one of the listed values.', ('inputs', 'schedules'))
prop('C23', 'The timeline gives the right frame and screen',
 'A loaded or built-up recording holds each frame with its data and time (delays over 5 s, and those going back, count as 5 s); seeking to any time returns the last frame at or before it (the beginning if there is none) and a terminal having seen exactly the data up to and including that frame, whatever was sought before and wherever cached snapshots lie; following frames come in order, then nothing; nothing is leaked or used after being freed.',
 'all data, delays (also negative), start times, and times sought, for frame sequences of bounded length', 'One test seeks in one recording of ten one-byte frames, without a terminal.',
 ['libtty/timeline.c', 'libtty/ttyrec.h'], [('ttyrec_seek', 'libtty/timeline.c: ttyrec_seek'), ('snapshots', 'libtty/timeline.c: SNAPSHOT_CHUNK')], ['ttyrec_seek(), ttyrec_next_frame()'],
 BND + 'Terminals are modelled as the bytes they were given: C03 and C12 decide that this is all that matters. SNAPSHOT_CHUNK is scaled down.', ('inputs', 'histories'))
prop('C24', 'Saving an excerpt writes exactly the chosen part',
 'Saving a recording between two times opens the output with the date of the first frame selected, then writes the frame on screen at the start of the selection and every one up to its end, each with its data and time, and nothing else; failure to open or close the output is reported.',
 'all data, delays and limits for frame sequences of bounded length', 'The tests save one whole recording, never an excerpt.',
 ['libtty/timeline.c'], [('ttyrec_save', 'libtty/timeline.c: ttyrec_save')], ['recorder callbacks'],
 BND + 'Recorders are modelled by what they are given (C17-C19 decide the real ones).', ('inputs', 'fault_sequences'))
prop('C25', 'Time arithmetic is exact',
 'Adding, subtracting and comparing times, and scaling them by a speed in thousandths, gives normalized exact results (to a microsecond when scaling) for every pair of times, negative ones included.',
 'all pairs of normalized times; the listed speed factors', 'A thousand random values within a few seconds.',
 ['libtty/ttyrec.h'], [('tadd, tsub, tcmp, tmul1000, tdiv1000', 'libtty/ttyrec.h: tadd and others')], ['macros, by use'],
 'Decided for all times within 32 bits of seconds; for the scaling macros for the listed factors.')
prop('C16', 'Formatted terminal writes are complete and exact',
 'A formatted write to a terminal writes exactly the formatted text, whatever its length, with the arguments passed on intact and no memory outside the text read or written.',
 'all texts of each length around the internal buffer size', 'No test prints anything longer than the buffer.',
 ['libtty/tty.c'], [('tty_printf', 'libtty/tty.c: tty_printf')], ['bytes that reach tty_write()'],
 BND + 'The buffer is scaled down to 8 bytes; vsnprintf/vasprintf are modelled as documented by C99.')
prop('C28', 'Telnet streams yield exactly the data',
 'Reading from a telnet stream gives exactly the data bytes sent, in order, with IAC IAC as one 255 and every command, negotiation and subnegotiation taken out, however the stream is cut into packets; each negotiation gets exactly one answer, agreeing only to echo and suppress-go-ahead and refusing everything else; when either side ends, both ends are closed once and nothing more is written.',
 'every byte sequence up to the bound and several divisions of it into reads', 'No test opens a network stream.',
 ['libstream/url_telnet.c'], [('telnet', 'libstream/url_telnet.c: telnet')], ['bytes given to recv/send/write/close stubs'],
 BND + 'Sockets are modelled by stubs. A subnegotiation longer than 64 bytes is not claimed.', ('inputs', 'schedules'))
prop('C26', 'File names decide format and compression',
 'A recording is read or written in the format named explicitly, in any letter case, an unknown name being refused; otherwise in that of the extension of the file name, below the extension of a known compression if there is one; otherwise in the fallback. The compression is that of the last extension. The lists of formats and their extensions agree with this.',
 'every name of each length up to the bound, every ending of the longer names listed, every fallback', 'The tests use a handful of names.',
 ['libtty/files.c', 'libtty/formats.c', 'libstream/compress.c', 'libstream/prefix.c'], [('find_r_format, find_w_format', 'libtty/files.c: find_w_format'), ('comp_from_ext', 'libstream/compress.c: comp_from_ext')], ['ttyrec_*_find_format(), ttyrec_*_get_format_*(), comp_from_ext()'],
 BND + 'Decided for the compression libraries configured in this build (all four).')
prop('C27', 'Compressed streams carry the data whole',
 'Reading a compressed stream gives exactly the data in it, and writing one compresses exactly the data written, in order, whatever sizes the compression library and the files choose to work in and however many bzip2 streams were appended; an input/output error, a damaged file or a reader that went away ends it without any further write, with no memory outside the buffers touched, and both ends closed once and the codec released; damage to gzip and bzip2 is reported.',
 'all schedules of reads, codec steps and one fault at each point, for data of a few bytes', 'Only whole small files are read, from disk, where everything fits one buffer.',
 ['libstream/compress.c'], [('filters', 'libstream/compress.c: read_gz, write_gz, read_bz2, write_bz2, read_xz, write_xz, read_zstd, write_zstd')], ['bytes given to read/write/close and codec stubs'],
 BND + 'The compression libraries are modelled as identity codecs that take and give pieces of every size they are allowed to.', ('inputs', 'schedules', 'fault_sequences'))
prop('C30', 'Network addresses are taken apart correctly',
 'host, host:port and [host]:port followed by /rest connect to just that host and port (the default port if none is given), hand the rest on, and try the addresses of the host in order until one answers, leaving no other socket open; malformed addresses, ports outside 1..65535 and names that are too long are refused with a message, without overflowing anything or connecting anywhere.',
 'every address of up to four bytes, and every filling of the longer ones listed; every outcome of resolving and connecting', 'No test opens a network stream.',
 ['libstream/url_tcp.c'], [('resolve_host, connect_out', 'libstream/url_tcp.c: resolve_host, connect_tcp'), ('open_tcp', 'libstream/url_tcp.c: open_tcp')], ['arguments of getaddrinfo, socket, connect, close stubs'],
 BND + 'The resolver and sockets are stubs with every outcome; the host buffer is scaled.', ('inputs', 'fault_sequences'))
prop('C31', 'Opening streams: dispatch, failures, and nothing lost at exit',
 'A name with a URL prefix is opened by that kind of stream with just what follows the prefix, "-" is standard input or output, anything else a file; a compressed one goes through its filter. A call that fails returns -1 with a message and leaves nothing open. However many streams were opened, and however the threads behind them are scheduled, at exit the program waits until every one has done its work, exactly once each, and never for one that could not be started.',
 'every name up to the bound; sequences of opened streams with every failing call and every interleaving of the threads at their synchronization points', 'The tests open whole local files one at a time; when the thread gets to run is up to the kernel.',
 ['libstream/stream.c', 'libstream/prefix.c'], [('open_stream', 'libstream/stream.c: open_stream'), ('filter, finish_up', 'libstream/stream.c: filter, finish_up')], ['descriptors, threads and messages as seen by stubs'],
 BND + 'Threads are run by a symbolic scheduler at every lock, wait and creation; openers and filters are stubs (C27, C28, C30 decide the real ones).', ('inputs', 'schedules', 'fault_sequences'))
prop('C33', 'Recording a session is complete and transparent',
 'While a session is recorded, everything it outputs is both shown and recorded, each byte once, in order, with the time it came at; every key is passed on unchanged; the size and UTF-8ness of the terminal are recorded at the start and the size again wherever it changes (unless asked not to), the session being told the new size; signals are passed to the session and nothing else. When the session ends, or showing or typing fails, the recording is closed properly (a failure to do so reported), the terminal restored, and the session waited for.',
 'all data, times, sizes and outcomes of closing, for schedules of output, keys, resizes and signals up to the bound', 'The tests record one command without any input, resize or signal.',
 ['rec/termrec.c'], [('main loop', 'rec/termrec.c: main'), ('record_size', 'rec/termrec.c: record_size'), ('signals', 'rec/termrec.c: sigpass, sigwinch, sigpipe')], ['calls of ttyrec_w_*, write, ioctl, tcsetattr, kill'],
 BND + 'Terminals, clock, signals and the recorder are stubs; the buffer is scaled. A session is taken to have ended when its terminal or the keyboard reports the end.', ('inputs', 'schedules', 'fault_sequences'))
prop('C34', 'Recordings go to the right file and never over another',
 'Without a name, a recording gets the date and the first of "", a, b ... z, aa ... that gives a file that does not exist yet, and nothing that exists is ever overwritten; with one, that very file is replaced, or created or appended to when told to append; "-" is standard output; files being read are never created or changed; failure to open is reported.',
 'every number of existing files up to the bound and every outcome of opening', 'The tests always give a name of a new file.',
 ['common/open_out.c', 'libstream/url_file.c'], [('open_out, nameinc', 'common/open_out.c: open_out, nameinc'), ('open_file', 'libstream/url_file.c: open_file')], ['arguments of open() and open_stream()'],
 BND + 'The date, open() and streams are stubs.', ('inputs', 'histories', 'fault_sequences'))
prop('C35', 'Concatenating and timing add up',
 'termcat writes the frames of every file named, in order, unchanged, each at the time that is the sum of all delays so far; termtime prints for each file the sum of its delays. A file that cannot be played is complained about and the rest still used; the exit status tells whether anything was, and was written well.',
 'all delays, for lists of files with frame counts up to the bound', 'The tests have one pair of small files.',
 ['cat/termcat.c', 'time/termtime.c'], [('termcat', 'cat/termcat.c: main'), ('termtime', 'time/termtime.c: main')], ['calls of ttyrec_w_*, printf'],
 BND + 'Players and recorders are stubs (C17-C22 decide the real ones).', ('inputs', 'histories', 'fault_sequences'))
