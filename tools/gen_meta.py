#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, and checks them against the schemas if they're there."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O = "src/osu_file/"
P = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe))

prop("C01", "Any text is read or rejected, and anything read can be used, without a panic",
  "Reading any text as a beatmap file, as a storyboard file, or as any section, item or field of any version returns a value or an error and never panics or hangs. Whatever was read can be written in every version, and its calculations and error messages can be made, also without a panic. The same goes for trimming and comparing any texts.",
  ["inputs"], "All texts: generated files of versions 3 to 14 and storyboards, these with up to several edits of characters, lines, fields and encodings, random texts and texts made of pieces of the format.",
  "The 88 tests read a few dozen well formed texts; nearly every panic sits in a text nobody wrote (a missing field, a multibyte character, a number out of range).",
  ["src/lib.rs", "src/parsers.rs", "src/helper/mod.rs", O+"mod.rs", O+"types.rs", O+"events/mod.rs", O+"hitobjects/mod.rs", O+"timingpoints/mod.rs", O+"osb/mod.rs"],
  [("Parsers that return errors with a context", "src/parsers.rs, src/helper/macros.rs"), ("Splitting a file in sections", O+"mod.rs"), ("Error display", O+"types.rs Error::display_error_with_line")],
  "mutation-based fuzzing with a no-panic oracle, and a watchdog for hangs",
  "Searches about 0.9 million texts per quick run through every public entry point. Trusts catch_unwind and the worker process to see panics, aborts and hangs; huge frame counts are left out of frame name lists, since that list is as long as asked for.")

prop("C02", "What's read and written again is the same, and is stable",
  "A file that was read can be written and read again, and both values are equal apart from what the version doesn't write. Writing what was read from a written file gives the same text. This holds for whole files in every version and for storyboard files.",
  ["inputs"], "Generated files of versions 3 to 14 with all sections, their mutations that are still accepted, single sections and storyboard files.",
  "Tests round trip a handful of canonical files; the guarantee is about every accepted text in every version.",
  [O+"mod.rs", O+"osb/mod.rs", O+"events/mod.rs", O+"hitobjects/mod.rs", O+"timingpoints/mod.rs", O+"colours/mod.rs"],
  [("Display of a file and of every section", O+"mod.rs impl Display, VersionedToString impls"), ("FromStr of a file", O+"mod.rs impl FromStr")],
  "round-trip property testing over structured generators and accepted mutants",
  "Generated files are compared field by field with the model they were made from before and after the round trip; mutants are compared as values. Known exceptions of the format (e.g. values that depend on spelling) are listed in DESIGN.md.")

prop("C03", "Fields of General, Editor, Metadata and Difficulty are read and written exactly",
  "Every `key: value` line sets exactly the field of that name to exactly the value that is written, in any order and with any subset of the fields, and every other field stays unset. Writing gives one line per set field that exists in the version, in the fixed order of fields and with the spacing of the section. A field that doesn't exist in a version is left out when it's written.",
  ["inputs", "configurations"], "All subsets and orders of the 41 fields with values of their type, versions 3 to 14.",
  "Tests read one or two full sections; swapped fields, lost values and version limits show only for other subsets, orders, versions and values.",
  [O+"general/mod.rs", O+"general/types.rs", O+"editor/mod.rs", O+"metadata/mod.rs", O+"metadata/error.rs", O+"difficulty/mod.rs", "src/helper/macros.rs", "src/parsers.rs"],
  [("Section macro", "src/helper/macros.rs general_section"), ("Field types with version limits", O+"general/types.rs")],
  "model-based property testing against a reference reader and writer",
  "The model of the fields is written independently of the crate; values are compared through the public fields and byte for byte in the written text.")

prop("C04", "Hit objects are read and written exactly",
  "Every circle, slider, spinner and hold note is read with exactly the position, time, combo flags, hit sounds, curve, slides, length, edge values, end time and hit sample that are written, in order. Written hit objects are the canonical form of what was read, with the fields the version has. Versions 3 and 4 read times 24 ms later and write them 24 ms earlier.",
  ["inputs", "configurations"], "Lists of objects with every combination of fields, spellings of numbers and flags, versions 3 to 14.",
  "Tests read one object per kind; field combinations, bit flags, optional tails and version formats are a large space.",
  [O+"hitobjects/mod.rs", O+"hitobjects/types.rs", "src/parsers.rs", "src/helper/mod.rs"],
  [("Parser and writer of objects", O+"hitobjects/mod.rs"), ("Hit sounds, samples, edge sets, curves", O+"hitobjects/types.rs")],
  "model-based property testing against a reference reader and writer",
  "Independent model of objects, compared through the public fields and byte for byte in the written text.")

prop("C05", "Timing points are read and written exactly",
  "Every timing point is read with exactly the time, beat length, meter, sample set, sample index, volume, kind and effects that are written, and with the fallback values where an old version has no such field. Written points are the canonical form of what was read, with the fields of the version. Versions 3 and 4 read times 24 ms later and write them 24 ms earlier.",
  ["inputs", "configurations"], "Lists of points with every combination of fields and numbers, versions 3 to 14.",
  "Tests read a few points of the latest versions; version limits and number ranges aren't reached.",
  [O+"timingpoints/mod.rs", O+"timingpoints/types.rs", "src/parsers.rs"],
  [("Parser and writer of points", O+"timingpoints/mod.rs"), ("Effects, volume, sample index", O+"timingpoints/types.rs")],
  "model-based property testing against a reference reader and writer",
  "Independent model of points, compared through the public fields and byte for byte in the written text.")

prop("C06", "Events are read and written exactly, in order, with their commands",
  "Every background, video, break, colour transformation, legacy sprite, animation and sample, storyboard sprite, animation and audio sample, and comment is read with exactly the fields that are written, in order. Indented command lines belong to the event before them. Written events are the canonical form of what was read, and colour transformations are only there in versions before 14.",
  ["inputs", "configurations"], "Lists of all kinds of events with optional fields, short and long headers, commands and comments in between, versions 3 to 14.",
  "Tests read single events; interleavings of events, comments and commands and the optional fields are a large space.",
  [O+"events/mod.rs", O+"events/normal_event/mod.rs", O+"events/storyboard/sprites.rs", O+"events/audio_sample/mod.rs"],
  [("Kinds of events and attachment of commands", O+"events/mod.rs"), ("Items", O+"events/normal_event/mod.rs, "+O+"events/storyboard/sprites.rs")],
  "model-based property testing against a reference reader and writer",
  "Independent model of events, compared through the public fields and byte for byte in the written text.")

prop("C07", "Storyboard commands are read and written exactly, with their nesting",
  "Every storyboard command is read with exactly the kind, easing, times and values that are written, with any number of further values, and the commands of loops and triggers are inside of them as their indentation says. Spaces and underscores both indent. Written commands are the canonical form of what was read, at the indentation of their depth.",
  ["inputs"], "Trees of commands of all kinds up to depth 6 with up to hundreds of further values and all trigger types, with commands on sprites and animations.",
  "Tests read one command per kind and two trees; depth, siblings, continuing values and trigger combinations aren't reached.",
  [O+"events/storyboard/cmds/mod.rs", O+"events/storyboard/cmds/types.rs", O+"events/storyboard/types.rs", O+"events/mod.rs"],
  [("Command parser and writer", O+"events/storyboard/cmds/mod.rs"), ("Nesting by indentation", O+"events/mod.rs, EventWithCommands::try_push_cmd")],
  "model-based property testing over generated command trees",
  "Independent model of commands, compared through the public fields and byte for byte in the written text.")

prop("C08", "Variables stand for their values, and writing with them keeps the meaning",
  "In a storyboard file every use of a variable in a command is read as if its value was written there. A storyboard is written with a variable's name where a command has its value, and what's written is read back as the same commands and variables.",
  ["inputs"], "Sets of variables with values that look like fields, parts of fields and several fields, and commands that use them at any place.",
  "Tests use two variables in fixed places; values that overlap other values, names and separators show the errors.",
  [O+"osb/mod.rs", O+"osb/types.rs", O+"events/storyboard/cmds/mod.rs", O+"events/mod.rs"],
  [("Expansion of names", O+"osb/mod.rs, "+O+"events/mod.rs"), ("Writing with names", O+"events/storyboard/cmds/mod.rs to_string_variables")],
  "metamorphic and round-trip property testing",
  "Reading with variables is compared with reading the substituted text; variable names that are prefixes of each other and `$` in values are left out, the format has no meaning for them.")

prop("C09", "Errors tell the line they're in",
  "When a file, storyboard or section is rejected because of one bad line, the line index of the error is the index of that line in the text that was given, and the message shows that line and its number. Blank lines, comments, line ends and the sections before it don't change that.",
  ["inputs"], "Valid files and storyboards of any layout with one fault of 14 kinds at any place, single sections with a bad line.",
  "Tests place five errors in small files; the index depends on everything that's before the error.",
  [O+"mod.rs", O+"types.rs", O+"osb/mod.rs", O+"events/mod.rs", O+"types.rs", "src/helper/mod.rs", "src/helper/macros.rs"],
  [("Counting of lines per section", O+"mod.rs, "+O+"osb/mod.rs"), ("Adding up indexes", O+"types.rs Error::combine_result"), ("Display with the line", O+"types.rs Error::display_error_with_line")],
  "fault injection at known lines, property testing",
  "The place of the fault is known from building the text. One finding is known and listed (a section that ends with an empty line, pinned by an existing test): the check tells it apart by the amount of such sections before the error and reports any other deviation.")

prop("C10", "Files with a fault in their structure or a field are rejected with that fault",
  "An unknown or repeated section, a section name without one of its brackets, a line outside of sections, a wrong version line, an unknown or repeated key, a line without a colon, a value that isn't of the field's type, a storyboard command without a sprite or nested too deep, an unknown event and a wrong variable line are all rejected, with an error of that kind. A rejected storyboard isn't stored.",
  ["inputs"], "Valid files and storyboards of any layout with one fault at any place.",
  "Tests have a dozen faults; a fault that's accepted silently loses data, and depends on the version, field and place.",
  [O+"mod.rs", O+"osb/mod.rs", "src/helper/macros.rs", O+"events/mod.rs"],
  [("Section splitting", O+"mod.rs"), ("Field errors", "src/helper/macros.rs general_section"), ("Event errors", O+"events/mod.rs")],
  "fault injection property testing",
  "Every fault kind is made by the generator, so that it's known what has to be reported. Fields that don't exist in the version may have any value.")

prop("C11", "The layout of a file doesn't change what's read",
  "Blank lines, spacing around section names and fields, comment lines, LF or CRLF line ends, a byte order mark, a missing end of line and the order of sections and of `key: value` lines don't change what's read. A list section is read as the concatenation of what its items are read as.",
  ["inputs"], "Generated and mutated files and storyboards, each in several layouts.",
  "Tests use one layout each.",
  [O+"mod.rs", O+"osb/mod.rs", "src/parsers.rs", "src/helper/mod.rs"],
  [("Section splitting and trimming", O+"mod.rs, "+O+"osb/mod.rs"), ("Key value lines", "src/parsers.rs get_colon_field_value_lines")],
  "metamorphic property testing",
  "Values that are read from two layouts of the same content are compared.")

prop("C12", "A file can be written in another version",
  "A file that was read in one version and is written in another has exactly the sections, fields, events and values that exist in the other version, in its format, with times moved by the 24 ms between versions 4 and 5. `key: value` fields that exist in both versions are the same after being read again, and writing again gives the same text. A storyboard file is only read, stored and written in version 14 and later.",
  ["inputs", "configurations"], "Generated files of all pairs of versions.",
  "Tests write a file in the version it was read in.",
  [O+"mod.rs", O+"general/types.rs", O+"colours/mod.rs", O+"hitobjects/mod.rs", O+"timingpoints/mod.rs", O+"events/normal_event/mod.rs"],
  [("Version limits in writers", "VersionedToString impls"), ("Time offset", "src/helper/mod.rs, "+O+"types.rs")],
  "model-based property testing over pairs of versions",
  "The reference writer of every version is part of the model.")

prop("C13", "Limited values and flags stay in their limits under any history of changes",
  "The volume of a hit sample is only ever unset or 1 to 100, that of an audio sample 0 to 100, and a combo skip count 0 to 7; a change to any other value is rejected and changes nothing. Setting a hit sound or effect flag changes exactly that flag, and the flags, numbers and text of such values always agree. The setters, getters and text of timing points agree with each other.",
  ["histories", "inputs"], "Random histories of up to dozens of constructions, conversions and setter calls with values inside and outside of the limits.",
  "Tests call each setter once.",
  [O+"hitobjects/types.rs", O+"events/audio_sample/mod.rs", O+"timingpoints/types.rs", O+"timingpoints/mod.rs"],
  [("Bounded types", O+"hitobjects/types.rs, "+O+"events/audio_sample/mod.rs"), ("Flag types", O+"hitobjects/types.rs, "+O+"timingpoints/types.rs")],
  "stateful model-based property testing",
  "The model is a plain number or set of flags, compared after every step of the history.")

prop("C14", "The values of a storyboard command can be edited like a list",
  "The further values of a command are a list that starts with a required value: getting, setting, pushing and popping act on the position they're given, and everything else stays as it was. Only the last value may be without its second or third part, and a change that would break that or that's out of bounds is rejected and changes nothing. What the values are is always what's read when the command is written.",
  ["histories"], "Random histories of edits of lists of pairs and of colours.",
  "Tests edit one short list; the rules for missing parts depend on the length and on what was edited before.",
  [O+"events/storyboard/cmds/types.rs"],
  [("Continuing fields", O+"events/storyboard/cmds/types.rs ContinuingFields, Colours")],
  "stateful model-based property testing",
  "The model is a vector; values and errors are compared after every step, and the command is written and read.")

prop("C15", "Commands that are added to a sprite end up where their indentation says",
  "Adding commands with indentations to a sprite, animation, background, video or sample gives the same tree as reading the same lines: indentation 1 adds to the event itself, and every level deeper to the last command of the level above, which has to be a loop or a trigger. Any other indentation is rejected, the error names it, and nothing is changed.",
  ["histories"], "Random sequences of commands and indentations, valid and invalid.",
  "Tests push a few commands with valid indentations.",
  [O+"events/mod.rs", O+"events/storyboard/sprites.rs", O+"events/normal_event/mod.rs"],
  [("Nesting by indentation", "EventWithCommands::try_push_cmd")],
  "stateful model-based property testing",
  "The model is a tree of its own, compared after every step and with reading the same lines.")

prop("C16", "Tempo and slider velocity of timing points are calculated correctly",
  "For a timing point that starts a tempo the beats per minute are 60000 divided by the beat length, and for one that changes the slider velocity the multiplier is -100 divided by the beat length; a point of the other kind, a point whose beat length isn't a number and a result that isn't representable give no result. A point made from a tempo or velocity gives it back.",
  ["inputs"], "Points of all kinds with positive, negative, zero, huge and tiny numbers and text.",
  "Tests calculate two points.",
  [O+"timingpoints/mod.rs"],
  [("Calculations", O+"timingpoints/mod.rs calc_bpm, calc_slider_velocity_multiplier, new_inherited, new_uninherited")],
  "property testing against exact rational arithmetic",
  "Results are compared with a relative error of 1e-11, of numbers with up to 12 significant digits.")

prop("C17", "The error of an item names its first field that's missing or malformed",
  "When an item's line ends before a required field, or has text in a field that can't be in it, the error of the file and its message name that field as missing or as invalid. Anything that's wrong after it in the same line doesn't change that.",
  ["inputs"], "Hit objects, timing points, colours, all kinds of events and storyboard commands, ended before any field or with bad text in any field, and with more bad fields after it.",
  "Tests check one bad line of some items; there are more than 100 fields and each has its own error.",
  [O+"hitobjects/mod.rs", O+"timingpoints/mod.rs", O+"colours/mod.rs", O+"events/normal_event/mod.rs", O+"events/storyboard/sprites.rs", O+"events/storyboard/cmds/mod.rs", O+"events/audio_sample/mod.rs", "src/helper/macros.rs"],
  [("Contexts of parsers", "context(...) in the item parsers"), ("Conversion of parser errors", "src/helper/macros.rs verbose_error_to_error")],
  "fault injection property testing",
  "What has to be reported is known from the table of fields. Edge sounds, edge sets and curve points of sliders are left out: they're reported as the field after them.")

prop("C18", "Keywords, codes and defaults are the ones of the format",
  "Every keyword and code of the format (modes, countdowns, sample sets, curve types, layers, origins, loop types, easings, triggers, parameters, event and section names) is read as what it stands for and written as that keyword or code again, in the versions that have it. Any other text isn't read as one of them. The default values of fields and files are the documented ones.",
  ["inputs", "configurations"], "All keywords and codes in all versions, and texts that are a few characters away from one.",
  "Tests read some of the keywords; a swapped pair or an accepted near miss isn't visible in them.",
  [O+"general/types.rs", O+"hitobjects/types.rs", O+"timingpoints/types.rs", O+"events/storyboard/types.rs", O+"events/storyboard/sprites.rs", O+"events/normal_event/types.rs", O+"events/mod.rs"],
  [("Tables of keywords", "FromStr, VersionedFromStr and VersionedToString impls of the enums"), ("Defaults", "VersionedDefault impls")],
  "exhaustive tables and near-miss fuzzing",
  "The tables are written from the documentation of the format, independent of the crate.")

prop("C19", "Colours are read and written exactly",
  "Every combo colour, slider track and slider border colour is read with exactly the number, red, green and blue that are written, in order and with any spacing around the separators, in versions 5 and later; earlier versions have none. Written colours are the canonical form of what was read.",
  ["inputs", "configurations"], "Lists of colours of all kinds and spellings, versions 3 to 14.",
  "Tests read one list.",
  [O+"colours/mod.rs", O+"colours/types.rs"],
  [("Parser and writer of colours", O+"colours/mod.rs")],
  "model-based property testing against a reference reader and writer",
  "Independent model of colours, compared through the public fields and byte for byte in the written text.")

prop("C20", "Numbers are kept exactly",
  "Text of a number with up to 28 digits is kept with all its digits, and text that isn't a number is kept as it is; both are written back without a change of value. Setting, converting and comparing numbers agree with exact decimal arithmetic.",
  ["inputs", "histories"], "Numbers of all lengths and scales, other text, and histories of changes.",
  "Tests use numbers that a float keeps as well.",
  [O+"types.rs"],
  [("Decimal", O+"types.rs Decimal")],
  "property testing against an exact reference",
  "The reference keeps the digits as text. More than 28 digits aren't representable by the number type.")

prop("C21", "What a program makes is written and read back as the same",
  "A file, hit object or storyboard that's put together or changed with the public types, with values the version has, is written as text that's read back as an equal value. The text is the canonical form of the values.",
  ["programs", "inputs"], "Files made of public types in every version, hit objects made with constructors and setters, files that were read and then changed, storyboards with commands.",
  "Tests write what was read before.",
  [O+"mod.rs", O+"hitobjects/mod.rs", O+"hitobjects/types.rs", O+"timingpoints/mod.rs", O+"events/mod.rs", O+"osb/mod.rs"],
  [("Writers", "VersionedToString impls"), ("Constructors and setters", O+"hitobjects/mod.rs, "+O+"timingpoints/mod.rs")],
  "round-trip property testing of constructed values",
  "Values are built from the same model as in the reading checks, through the constructors, fields and setters.")

prop("C22", "Comparing file texts ignores layout and nothing else",
  "Two file texts compare as equal if they only differ in blank lines, line ends, spacing around lines, and the order and spacing of `key: value` lines. They compare as different if a character, a line, a section or the amount of a line is different. The comparison, the assertion and the trimmed texts agree.",
  ["inputs"], "Pairs of texts of the same file in two layouts, of a file and what's written for it, and of files with one small change.",
  "Tests compare five pairs.",
  ["src/lib.rs", "src/parsers.rs"],
  [("Trimming", "src/lib.rs osu_str_trimmer"), ("Comparison", "src/lib.rs osu_str_eq, assert_eq_osu_str")],
  "metamorphic property testing",
  "Texts of generated files with known relations; trimming has to be idempotent on any text.")

prop("C23", "Adding storyboard files is all or nothing and independent of the file",
  "Adding a storyboard text to a file either replaces its storyboard with what the text says, or fails and changes nothing; it never changes the rest of the file or how that's written. The result only depends on the text and the version, not on what the file or an earlier storyboard has. Before version 14 nothing is stored.",
  ["histories"], "Random histories of valid and invalid storyboard texts that are added to generated files of all versions.",
  "Tests add one storyboard to one file.",
  [O+"mod.rs", O+"osb/mod.rs"],
  [("Adding", O+"mod.rs append_osb"), ("Writing", O+"mod.rs osb_to_string")],
  "stateful property testing with a differential oracle",
  "Every step is compared with adding the same text to an empty file of the version.")

prop("C24", "File paths and frame names are exact",
  "A file path is kept as the text it's read from or set to, quotes included, and is written as that text, in quotes if it has a space and no quotes. The frame file names of an animation are as many as its frame count, each the file name of the path with the number of the frame, counted from 0, right before the extension. A sprite can only be made with a relative path.",
  ["inputs"], "Paths with folders, quotes, dots, spaces and other scripts, frame counts of 0 and more, absolute and relative paths.",
  "Tests use plain names.",
  [O+"types.rs", O+"events/storyboard/sprites.rs"],
  [("Paths", O+"types.rs FilePath"), ("Frame names", O+"events/storyboard/sprites.rs frame_file_names")],
  "property testing against a reference",
  "The reference works on the text of the path. Quoted paths are left out of frame names.")

prop("C25", "All ways of reading and writing the same text agree",
  "A section has the same content, and is rejected with the same error, in a file and read alone. The items of a section, the events and commands of the events section and the events of a storyboard are the ones read from their lines alone, with each command added through the public API; the section is accepted exactly if its lines are. A storyboard is read the same alone and appended to a file, errors and their lines included. Written text agrees the same way: a file is its sections and a section its items, in every version.",
  ["inputs"], "Files, sections, lists, events with commands and storyboards as generated, and edited copies of them, in all versions.",
  "Tests read either whole files or single items, of a few texts.",
  [O+"mod.rs", O+"events/mod.rs", O+"events/storyboard/cmds/mod.rs", O+"osb/mod.rs", O+"colours/mod.rs", O+"timingpoints/mod.rs", O+"hitobjects/mod.rs"],
  [("Sections of a file", O+"mod.rs OsuFile::from_str"), ("Events and their commands", O+"events/mod.rs Events::from_str"), ("Commands added", O+"events/mod.rs EventWithCommands::try_push_cmd"), ("Storyboards of a file", O+"mod.rs OsuFile::append_osb")],
  "differential testing of the entry points against each other, on generated and edited texts",
  "Sections are compared without the spacing in front of them; errors of lists are compared only in whether they occur.")

prop("C26", "Reading and writing have no memory and change nothing",
  "What a text is read as, the error it's rejected with and what's written for it only depend on the text and the version: not on what was read, written or compared before in the same thread, and not on what other threads read at the same time. Writing, comparing and calculating don't change a value. A copy is equal to its original, values that are equal have equal hashes, and changing a copy doesn't change the original.",
  ["histories", "schedules"], "Histories of similar texts of all kinds and versions, in one and in several threads; files and copies of them that are changed.",
  "Every test reads its own text once, and looks at the result once.",
  [O+"mod.rs", O+"events/mod.rs", O+"events/storyboard/cmds/mod.rs", O+"osb/mod.rs", O+"timingpoints/mod.rs", O+"hitobjects/mod.rs", O+"types.rs", "src/lib.rs"],
  [("Reading", O+"mod.rs OsuFile::from_str"), ("Storyboards", O+"mod.rs OsuFile::append_osb"), ("Items", O+"types.rs VersionedFromStr"), ("Writing", O+"types.rs VersionedToString")],
  "stateful and concurrent property testing, differential against the first reading",
  "The schedules of threads are those of the machine. What's remembered wrongly from the very first text on is left to the reference models of the other checks.")

prop("C27", "The time of reading and writing is in proportion to the text",
  "Reading a text or rejecting it, writing what was read in any version, copying it, making the message of an error and comparing texts take time in proportion to the length of the text, whatever makes it long: lines, items, levels of loops, values of a line, or a long value. For storyboards that's with the variables staying the same, as every variable is looked for in every line. A file that's twice as long isn't four times as slow.",
  ["inputs"], "Texts of 19 kinds of shapes that can be of any length, each at two lengths that differ 24 times, accepted and rejected.",
  "The tests only use texts of a few hundred lines, for which it makes no difference.",
  [O+"mod.rs", O+"events/mod.rs", O+"events/storyboard/cmds/mod.rs", O+"osb/mod.rs", O+"timingpoints/mod.rs", O+"hitobjects/mod.rs", O+"colours/mod.rs", "src/parsers.rs", "src/lib.rs", "src/helper/macros.rs"],
  [("Reading", O+"mod.rs OsuFile::from_str"), ("Commands", O+"events/mod.rs EventWithCommands::try_push_cmd"), ("Storyboards", O+"osb/mod.rs Osb::from_str"), ("Comparing", "src/lib.rs osu_str_eq")],
  "metamorphic property testing: the processor time of a long text against the one of a short text of the same shape",
  "Measured as the processor time of the thread, least of several runs; amounts up to six times of what's in proportion aren't told from it.")

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                     anchors=dict(files=sorted(set(p["files"])), mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[],
             notes="All checks are parts of one harness crate in harness/ with a path dependency on /repo. No hooks are needed.")
    for p in P:
        m["checks"].append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']}",
            thorough_cmd=f"./check.sh {p['id']} thorough", evidence_file=f"evidence/{p['id']}.json",
            technique=p["technique"], level="exploration", level_note=p["note"]))
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
    try:
        import jsonschema
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for l in open(os.path.join(HERE, "properties.jsonl")):
            jsonschema.validate(json.loads(l), s)
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
        print(len(P), "properties, valid")
    except (ImportError, FileNotFoundError) as e:
        print("not validated:", e)

main()
