#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
      "quantifier": {"over": over, "text": " ".join(text.split())},
      "why_tests_cant": " ".join(why.split()),
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for (n, m, w) in (state or [])],
        "mechanism": [{"name": n, "where": w} for (n, w) in mech],
        "observe_at": observe or [], "hook_needed": None}})

D="src/pgs/decoder.rs"; O="src/pgs/ods.rs"; PD="src/pgs/pds.rs"; PI="src/pgs/pgs_image.rs"; SG="src/pgs/segment.rs"; SU="src/pgs/sup.rs"; PM="src/pgs/mod.rs"
S="src/vobsub/sub.rs"; IM="src/vobsub/img.rs"; DE="src/vobsub/decoder.rs"; PS="src/vobsub/mpeg2/ps.rs"; PE="src/vobsub/mpeg2/pes.rs"; CL="src/vobsub/mpeg2/clock.rs"
IX="src/vobsub/idx.rs"; PA="src/vobsub/palette.rs"; PR="src/vobsub/probe.rs"; TP="src/time/time_point.rs"

p("C01","Each SUP caption is delivered once, in order, with its exact times",
 """Reading a well-formed SUP stream yields exactly one caption per pair of consecutive display sets
 (one that shows, one that clears), in stream order, and then the end of the stream. A caption starts and ends at
 the presentation times carried by the end markers of its two display sets, converted from 90 kHz ticks to
 milliseconds rounded down, over the whole 32-bit range. A last display set without a partner yields no caption and no error.""",
 ["inputs","histories"],"every well-formed SUP stream: any number of display sets, any 32-bit times, any other segments between the end markers",
 "Two fixture files with one and eight captions are read; pairing over other histories (odd display sets, equal or decreasing or huge times, empty display sets) is never run.",
 [D,SG,SU],[("pairing of end markers",D+" parse_next"),("PTS / 90",SG+" presentation_time"),("iteration",SU+" Iterator::next")],
 [("start_time","time of the first end marker of the caption being read",D)],["SupParser::next"])
p("C02","Reading SUP times only agrees with reading times and images",
 """On every well-formed SUP stream, reading only the times yields exactly the spans that reading times and images yields, in the same order.
 The spans read by the time-only mode depend only on the end markers: the number, size and content of the palette, object, window and composition segments between them never change them.""",
 ["inputs"],"every SUP stream whose segment framing is intact, including segments of size 0 and 65535 and contents that look like segment headers",
 "The two modes are tested on different files and never compared; segment sizes relative to the reader's buffer are never varied.",
 [D,SG,PM],[("segment skipping",PM+" skip_data"),("DecodeTimeOnly / DecodeTimeImage",D)],None,["SupParser::next"])
p("C03","SUP images are reassembled from object segments without loss or mixing",
 """The image delivered with a caption has the width and height declared by that caption's object and is decoded from exactly that object's data, whether the object
 arrives in a single segment or is split at any byte between a first and a last segment, and whatever other segments lie in between.
 When several complete objects, each with its own palette, precede the end of a caption, the last one is delivered.
 No byte of an object of another caption ever contributes.""",
 ["inputs","histories"],"every object size, every split point (also empty parts), every interleaving with other segments, every sequence of captions",
 "The fixtures hold whatever their encoder produced; tests check only the times of the captions and never look at an image.",
 [O,D],[("fragment bookkeeping",O+" read"),("prev_ods / image hand-over",D)],
 [("prev_ods","object whose last part is still missing",D),("image","last complete object of the caption",D)],["SupParser::next","RleEncodedImage"])
p("C04","SUP pixels equal the run-length data seen through the caption's palette",
 """Iterating over a SUP image yields, row by row, the pixels its run-length data encodes: every run form (single pixel, short and long runs of colour 0 or of any colour, line ends) stands for exactly
 its count of its colour. Each colour number is shown with the luminance and transparency of the palette entry that carries that number in the last palette before the object,
 in whatever order and with whatever gaps the entries are listed, and as transparent white when the palette has no such entry. The image always has width times height pixels: those for which the data holds no complete code are transparent white, and codes beyond the last pixel are not shown.""",
 ["inputs"],"every run-length string and every palette of distinct entries",
 "No test decodes a SUP image at all.",
 [PI,PD,D],[("read_next_pixel",PI),("Palette::get",PD),("pe_to_luma_a",PI)],None,["RleEncodedImage::iter","RleEncodedImage::pixels"])
p("C05","SUP images are rendered at their size, pixel for pixel, with the OCR border",
 """Rendering a SUP image gives a picture of exactly the image's width and height in which every pixel is the given conversion of the decoded pixel at that place.
 The OCR rendering is the same picture surrounded on all four sides by exactly the requested number of border pixels of the background colour.""",
 ["inputs","configurations"],"every image, every conversion function, every border width and background colour",
 "No test renders a SUP image.",
 [PI,"src/image/mod.rs"],[("to_image",PI),("ToOcrImage::image",PI)],None,["RleToImage::to_image","RleToImage::image"])
p("C06","No SUP input can crash or hang the reader or its images",
 """Whatever bytes a SUP stream contains, and wherever it is cut, every request for the next caption returns a caption, an error or the end, and a finite stream reaches its end after
 finitely many requests. Every image that is delivered can be iterated and rendered without a crash, also when its run-length data is cut, contains zero-length runs, or holds fewer or more pixels than its size.
 A palette or object segment whose declared sizes contradict each other, or an object part that does not belong to an object in progress, is reported as an error.""",
 ["inputs","fault_sequences"],"every byte string and every truncation point of every stream",
 "The tests read two valid files; no malformed or truncated SUP stream is ever read.",
 [O,PD,D,PI,SG],[("size checks",O+" read; "+PD+" read"),("end of data in runs",PI+" read_next_pixel")],None,["SupParser::next","RleToImage"])
p("C07","A SUP caption that cannot be decoded costs only itself",
 """When the two display sets of a caption hold no object, an object without a palette, or a palette or object segment with invalid content, reading times and images reports this with exactly one error in the place of the caption; every caption before and every caption after it is delivered exactly as if the stream did not contain the bad one. A caption without any object is reported as a missing image, and an object without a palette since the previous object of its caption as a missing palette.""",
 ["histories","fault_sequences","inputs"],"every number and placement of undecodable captions among good ones, every kind of invalid palette or object content",
 "One fixture has one caption without an object; the errors inside palette and object segments are never exercised.",
 [D,O,PD,SU],[("per-call state",D+" parse_next"),("segment-aligned reading",D)],
 [("reader position","where the next segment header is read",SU)],["SupParser::next"])
p("C08","SUP reading does not depend on read sizes and never hides an I/O failure",
 """The captions and errors read from a stream are the same for every reader that delivers the same bytes, whatever its buffer size, however short its reads, and however often a read is merely interrupted.
 If the underlying reader fails, the captions completed before the failure are delivered and the failure is reported as an error, never as the end of the stream.""",
 ["inputs","fault_sequences","schedules"],"every stream, buffer capacity, sequence of short reads and interruptions, and every failure offset",
 "Tests read only from files through the default 8 KiB buffer and no read ever fails.",
 [PM,SG,O,PD],[("ReadExt::skip_data",PM),("read_header error mapping",SG)],None,["SupParser::next over a custom BufRead + Seek"])
p("C09","SUP pixel iteration reports its exact length and stops there",
 """An iteration over the pixels of a SUP image, whichever operations of iterators request or skip them, yields exactly width times height pixels and then nothing more. At every moment the length it reports is the number of pixels still to come.""",
 ["inputs","histories"],"every image (also with missing or surplus run-length data) and every number of pixels already taken",
 "No test iterates over a SUP image or asks for its length.",
 [PI],[("RlePixelIterator::next / size_hint",PI)],None,["RlePixelIterator"])
p("C10","VobSub subtitles are recovered whatever the packetisation",
 """A subtitle carried by an MPEG-2 program stream is delivered unchanged, once and in stream order, however its bytes are split over packets of its stream, whatever stuffing, extra header bytes, optional time stamps,
 padding or system packets, cut-off pack headers, damaged packets whose announced length lies within the data, or arbitrary bytes without a pack start lie before, between or after them, and whatever packets of other subtitle streams lie between its parts.
 (A packet of the stream is a pack header directly followed by its packet.) A subtitle whose last part never arrives is not delivered; if its packet is cut off by the end of the data, this is reported as an error.""",
 ["inputs","histories"],"every subtitle, every split, every legal pack and packet header variant, every interleaving with foreign data",
 "One pair of fixtures compares a whole with a split subtitle; header variants, garbage, foreign streams and other splits are never run.",
 [S,PS,PE,CL],[("PesPackets::next resynchronisation",PS),("next_sub_packet reassembly",S),("packet parsing",PE)],
 [("remaining","input not yet consumed",PS),("sub_packet / wanted","bytes collected and needed",S)],["Sub::subtitles iterator"])
p("C11","VobSub display times follow the packet time stamp and the control dates",
 """A VobSub subtitle starts at the presentation time stamp of the packet that begins it (90 kHz, all 33 bits) plus the date of its first start command, and ends at the same time stamp plus the date of its first stop command (dates in 1/100 s), each to within one millisecond below the exact value and never above it.
 A subtitle without a stop command ends five seconds after it starts.""",
 ["inputs"],"all 33-bit time stamps, all 16-bit dates, commands in any sequence and any number of control sequences",
 "Two fixtures are read; the assertions are one-sided (value minus constant below 0.1) and no missing stop command is run.",
 [S,DE,CL,TP],[("base_time + date",S+" subtitle"),("Clock::as_seconds",CL),("default length",DE)],None,["Sub::subtitles iterator"])
p("C12","VobSub control sequences determine the subtitle",
 """Area, colour numbers and alpha values of a delivered VobSub subtitle are those of the first command of each kind along the chain of control sequences, and the bitmap offsets those of the last, in whatever order and sequence the commands appear and whatever unknown commands (up to the next end byte) lie among them;
 colour numbers and alpha values are listed in the reverse of their stored order. If start time, area, colours, alpha or bitmap offsets never appear, the subtitle is reported as an error naming one of the missing items.
 The chain is followed strictly forward until a sequence points to itself; a link that goes backward or beyond the data is an error.""",
 ["inputs","histories"],"every chain of control sequences, every order, repetition and omission of commands",
 "One control sequence layout (all commands in the canonical order) occurs in the tests; repetition, omission, chains and bad links are not run.",
 [S,"src/content/area.rs"],[("control loop",S+" subtitle"),("control_command",S)],
 [("control_offset","position in the chain",S)],["Sub::subtitles iterator"])
p("C13","VobSub bitmaps are decoded exactly",
 """The bitmap of a delivered VobSub subtitle has the width and height of its area and consists of the pixels its run-length data encodes: even rows from the first offset, odd rows from the second, each row starting on a byte boundary,
 each run standing for its count of its two-bit colour and a zero count filling the row to its end. Bitmap data that runs over the end of a row or of the available data, or offsets that are out of order or out of range, are reported as an error.""",
 ["inputs"],"every run code, every row width up to 4096, every number of rows, every pair of offsets",
 "Tests look at the area and palette of one bitmap and never at a pixel.",
 [IM],[("rle / count",IM),("scan_line",IM),("decompress interlacing",IM)],None,["VobSubIndexedImage::raw_image"])
p("C14","No VobSub input can crash or hang the reader",
 """Whatever bytes a VobSub sub file contains, and wherever it is cut, every request for the next subtitle returns a subtitle, an error or the end, and the end is reached after finitely many requests.
 Every delivered subtitle has one two-bit pixel for each point of its area and can be rendered without a crash.""",
 ["inputs","fault_sequences"],"every byte string and every truncation point",
 "Three small valid fixtures are read; malformed input is only covered by a fuzz corpus that is not part of the repository.",
 [S,IM,PS,PE],[("bounds checks",S+" subtitle"),("forward-only control chain",S),("decompress errors",IM)],None,["Sub::subtitles iterator"])
p("C15","A VobSub subtitle with invalid content costs only itself",
 """A VobSub subtitle that arrives in intact packets but whose control data or bitmap is invalid yields exactly one error in its place; all subtitles before and after it are delivered exactly as if it were absent.""",
 ["histories","fault_sequences","inputs"],"every number, kind and placement of invalid subtitles among valid ones",
 "No test reads an invalid subtitle.",
 [S,PS,IM],[("subtitle errors after reassembly",S)],None,["Sub::subtitles iterator"])
p("C16","VobSub bitmaps are rendered through the palette, alpha and OCR rules",
 """Rendering a VobSub bitmap gives a picture of its area's size in which every pixel is the given conversion of the palette colour and the alpha value that the subtitle assigns to that pixel's two-bit colour.
 The OCR rendering shows the text colour exactly where alpha and luminance are both above zero and the background colour elsewhere, surrounded by exactly the requested border of background pixels.""",
 ["inputs","configurations"],"every bitmap, colour and alpha assignment, palette, border and pair of colours",
 "The doc-test renders two bitmaps and looks at no pixel.",
 [IM,PA],[("compute_palette_color",IM),("to_image / image",IM),("palette_rgb_to_luminance",PA)],None,["VobSubToImage::to_image","VobSubOcrImage::image"])
p("C17","An idx file gives its palette and language whatever else it contains",
 """Reading an idx file yields the sixteen colours of its last palette line, or the documented default palette if it has none, and the language code of its last id line, or none if there is none or that line is not of the expected form.
 Comments, unknown keys, the order of lines, line endings and trailing blanks do not matter; a line is a palette or id line if it begins with `palette: ` or `id: ` and has a value. A palette line whose value is not exactly sixteen six-digit hexadecimal colours separated by comma and blank is an error, and so are a failing read (reported as I/O error) and a line that is not UTF-8 text.""",
 ["inputs","fault_sequences"],"every text file, every read failure offset",
 "One file is read and two of its colours are checked; language, defaults, repetition and malformed lines are not.",
 [IX,PA],[("read_index",IX),("palette",PA),("Lang::try_from",IX)],None,["Index::read_index","Index::open","palette"])
p("C18","File type probing answers by the leading magic bytes alone",
 """A readable file is reported as an idx file exactly if it begins with the VobSub index comment line prefix, and as a sub file exactly if it begins with an MPEG-2 pack start code, whatever follows and whatever the file is called.
 A file that is too short to contain the magic bytes, or that cannot be read, is never reported as being of that type.""",
 ["inputs"],"every file content and length",
 "Two files are probed; near misses and short files are not.",
 [PR],[("has_magic",PR)],None,["is_idx_file","is_sub_file"])
p("C19","Displayed times denote exactly the time point",
 """For every time point, the SubRip, WebVTT and idx notations read: a minus sign exactly if the time is negative, hours of at least two digits, minutes and seconds of two digits below 60, and milliseconds of three digits, with the separator of the format;
 the value they denote is exactly that time point. No time point makes formatting fail, and converting a time point to seconds and back changes it by at most one millisecond.
 Time points compare as their milliseconds do and have the opposite number of milliseconds when negated; a number of seconds becomes the time point of its whole milliseconds, and is refused by a panic if that does not exist.""",
 ["inputs"],"every 64-bit number of milliseconds (seconds conversion: every one exactly representable)",
 "The tests format no time at all; they construct a handful of time points.",
 [TP,"src/srt.rs","src/webvtt.rs",IX],[("fmt_separator",TP)],None,["TimePointSrt","TimePointVtt","TimePointIdx"])
p("C20","Written SubRip and WebVTT text is complete, ordered and honest about failures",
 """Writing subtitles as SubRip produces, for each subtitle in order, its number counted from one, its times, its text unchanged and an empty line, and nothing else; a single SubRip or WebVTT entry is written likewise (WebVTT without a number).
 However the writer splits or interrupts the writes, the same bytes arrive in the same order; if it fails, the error is returned and what was written is a prefix of the correct text.""",
 ["inputs","fault_sequences","schedules"],"every list of subtitles, every sequence of short writes, interruptions and failure offsets",
 "There are no tests of the writers.",
 ["src/srt.rs","src/webvtt.rs",TP],[("write_srt / write_line","src/srt.rs"),("write_line","src/webvtt.rs")],None,["write_srt","srt::write_line","webvtt::write_line"])
p("C21","Subtitle areas are valid and measured exactly",
 """An area is accepted only if its second corner lies strictly to the right of and below its first, and then reports exactly the corner and the inclusive width and height that the corners span, without overflow.
 Every area whose corners satisfy this and whose extent is representable is accepted.""",
 ["inputs"],"all quadruples of 16-bit coordinates",
 "One valid area is constructed in the tests.",
 ["src/content/area.rs"],[("TryFrom<AreaValues>","src/content/area.rs"),("width / height","src/content/area.rs")],None,["Area"])
p("C22","Dumped images are all written, numbered in order, or the failure is reported",
 """Dumping images creates the folder, with its parents, if needed and writes the n-th image, counted from zero, losslessly to the file named by n with at least six digits and the png extension, overwriting only these files.
 If the folder or one of the files cannot be written, the error names the path, all earlier images are in place and no later file is touched.""",
 ["inputs","fault_sequences","histories"],"every list of images, every initial content of the folder, every failing position",
 "There is no test of dumping.",
 ["src/image/utils.rs"],[("dump_images","src/image/utils.rs")],None,["dump_images"])
p("C23","Black-and-white conversion applies both thresholds exactly",
 """Converting a luminance-alpha pixel to black and white yields black exactly if its luminance and its alpha both reach their threshold, and white otherwise, identically for the compile-time and the run-time form of the conversion.""",
 ["inputs","configurations"],"all pairs of 8-bit values and thresholds, also for 16-bit pixels",
 "There is no test of the conversions.",
 ["src/image/pixels.rs"],[("luma_a_to_luma / luma_a_to_luma_convertor","src/image/pixels.rs")],None,["luma_a_to_luma","luma_a_to_luma_convertor"])
p("C24","Parsing is repeatable, independent of other parsing, and its end is final",
 """Reading the same SUP, sub or idx data again, or through several readers whose requests are interleaved in any way or run on different threads, gives each reader the same sequence of captions and errors; skipping, counting or collecting items through the operations of iterators is the same as requesting them one by one.
 Once a reader has reported the end, every further request reports the end again, also if the underlying reader would deliver more by then, and whatever decoder is plugged into the SUP parser.""",
 ["schedules","histories","inputs"],"every data, every interleaving of requests and iterator operations of several readers, every number of requests after the end, data that grow",
 "Each test drives a single iterator once and at most one step past the last item.",
 [SU,S,PS],[("FusedIterator",SU+"; "+S),("no shared state",S)],None,["SupParser","Sub::subtitles"])
p("C25","Reading from files equals reading from memory, and open failures name the file",
 """Opening a SUP, sub or idx file by path yields exactly what reading its bytes from memory yields, whatever the size of the file. A path that cannot be opened - or, for sub and idx files and when a file type is probed, not read - is reported as an I/O error that carries this path; a SUP path that can be opened but not read gives errors only.""",
 ["inputs","fault_sequences"],"every file content and size (below, at and above buffer sizes), every unreadable path",
 "Only small valid fixtures are opened and no open failure is provoked.",
 [SU,S,IX,PR],[("from_file",SU),("Sub::open",S),("Index::open",IX)],None,["SupParser::from_file","Sub::open","Index::open"])
p("C26","A SUP reader can be handed from decoder to decoder between captions",
 """Each request consumes exactly one caption: when a caption is returned or reported as undecodable, the underlying reader stands right behind the end marker that clears it, wherever in the reader's data the stream began.
 Reading can therefore go on from there with either decoder, called directly or through a parser that borrows the reader, and every caption is delivered by whichever decoder reads it exactly as if that decoder had read the whole stream; an undecodable caption that the image decoder reports does not disturb what follows, and reads as its times with the time-only decoder.""",
 ["histories","inputs","schedules"],"every SUP stream with intact segment framing, every sequence of choices of decoders and ways of calling them, every position of the stream in its reader, every buffer size",
 "Every test reads a whole file with one parser and one decoder; the reader is never looked at again.",
 [D,SU,PM,SG,O,PD],[("parse_next",D),("skip_data",PM),("no state outside the request",D)],
 [("reader","position behind the last consumed segment",SU)],["PgsDecoder::parse_next","SupParser::new"])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
