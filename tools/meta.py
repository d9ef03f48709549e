#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/meta.py"""
import json, os, glob

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/osu_file/"
P = {}


def p(id, title, statement, text, why, files, mech, over=("inputs", "configurations")):
    assert len(title) <= 80, title
    P[id] = {"id": id, "title": title, "statement": statement,
             "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
             "anchors": {"files": [f if f.startswith("src/") else S + f for f in files],
                         "mechanism": [{"name": n, "where": (w if w.startswith("src/") else S + w)} for n, w in mech]}}


p("P01", "Parsing never crashes",
  "Parsing any text as a whole .osu file, a .osb storyboard, any section or any storyboard command, at any version number, supported or not, returns a value or an error; it never panics, overflows or aborts.",
  "every text and every version number 0..255",
  "The tests parse a few dozen well-formed texts; a crash needs one particular malformed byte, an integer at its limit, a multi-byte character at a split point or an empty section.",
  ["mod.rs", "osb/mod.rs", "events/mod.rs", "events/normal_event/mod.rs", "events/storyboard/cmds/mod.rs", "hitobjects/mod.rs", "timingpoints/mod.rs", "colours/mod.rs", "src/parsers.rs", "src/helper/macros.rs"],
  [("FromStr for OsuFile", "mod.rs"), ("Events::from_str_variables", "events/mod.rs"), ("Command::from_str", "events/storyboard/cmds/mod.rs"), ("HitObject::from_str", "hitobjects/mod.rs"), ("osu_section!", "src/helper/macros.rs")])

p("P02", "Printing never crashes",
  "Every value obtained by parsing at one supported version can be printed at every version number without a panic, and printing the same value twice gives the same text.",
  "every parsed value and every pair of source and target versions",
  "Tests print a value only at the version it was parsed from, with mid-range numbers; the time offset, trimming of trailing fields and optional fields have limits only reached by other combinations.",
  ["mod.rs", "events/mod.rs", "events/normal_event/mod.rs", "events/storyboard/cmds/mod.rs", "hitobjects/mod.rs", "timingpoints/mod.rs"],
  [("Display for OsuFile", "mod.rs"), ("Command::to_string_variables", "events/storyboard/cmds/mod.rs"), ("HitObject::to_string", "hitobjects/mod.rs"), ("time_to_string", "events/normal_event/mod.rs")])

p("P03", "Printed text parses back and prints identically",
  "Whatever text is accepted at a version, printing the result at that version gives text that is accepted again at that version and prints identically (carriage returns that are no part of a line end, and sample file names that begin or end in white space, aside).",
  "every accepted section text and every version 3..14",
  "Round-trip tests use canonical texts of version 14; stability has to hold for non-canonical accepted spellings, omitted optional fields and every legacy version.",
  ["mod.rs", "events/mod.rs", "events/storyboard/cmds/mod.rs", "hitobjects/mod.rs", "hitobjects/types.rs", "timingpoints/mod.rs", "colours/mod.rs", "osb/mod.rs"],
  [("VersionedFromStr / VersionedToString pairs", "types.rs"), ("osu_section!", "src/helper/macros.rs")])

p("P04", "Latest-version values survive a print and parse unchanged",
  "At the latest version, every value accepted from text equals the value obtained by printing it and parsing the print, except for what text of that version cannot carry: keys and colour transformations it no longer has, missing quotes around a file name with a space, carriage returns inside lines and sample file names that begin or end in white space.",
  "every text accepted at version 14",
  "Equality of the re-parsed value is tested on single examples; a lossy field shows only for the values or optional-field combinations the examples do not have.",
  ["events/mod.rs", "hitobjects/mod.rs", "timingpoints/mod.rs", "general/mod.rs", "editor/mod.rs", "metadata/mod.rs", "difficulty/mod.rs", "colours/mod.rs"],
  [("derive(PartialEq) on every section type", "mod.rs"), ("VersionedToString impls", "types.rs")])

p("P05", "General and Editor keys hold and print exactly what was written",
  "Each General or Editor key stores exactly the value its text denotes, independent of the order, spacing and presence of other keys, and prints it once in the fixed order for the version; values outside the key's domain, unknown keys and repeated keys are rejected.",
  "every subset, order and value of the keys, every version",
  "Tests parse one complete section per version; a key bound to the wrong field, a swapped enum value or a dropped limit shows only for particular values.",
  ["general/mod.rs", "general/types.rs", "editor/mod.rs", "src/helper/macros.rs", "src/parsers.rs"],
  [("osu_section!", "src/helper/macros.rs"), ("get_colon_field_value_lines", "src/parsers.rs"), ("Countdown/SampleSet/Mode/OverlayPosition", "general/types.rs"), ("parse_zero_one_bool", "src/helper/mod.rs")])

p("P06", "Metadata and Difficulty keys hold and print exactly what was written",
  "Each Metadata or Difficulty key stores exactly the text, tag list or number written for it, including colons, inner spaces and non-ASCII characters, and prints it once in the fixed order; numbers outside their domain, unknown keys and repeated keys are rejected.",
  "every subset, order and value of the keys, every version",
  "Tests parse one complete section; loss of a character, a tag or the sign needs particular values.",
  ["metadata/mod.rs", "difficulty/mod.rs", "src/helper/macros.rs", "src/parsers.rs"],
  [("osu_section!", "src/helper/macros.rs"), ("get_colon_field_value_lines", "src/parsers.rs"), ("Tags", "metadata/mod.rs")])

p("P07", "Timing points hold and print exactly what was written",
  "A timing point line yields exactly the time, beat length, meter, sample set, sample index, volume, inheritance and effects written, with the documented defaults for omitted trailing fields, and prints them in the layout of the version; lines with missing or out-of-domain fields are rejected.",
  "every field value and count of fields, every version, lists of points",
  "Tests use a few lines; optional trailing fields, version-dependent layouts and field limits interact.",
  ["timingpoints/mod.rs", "timingpoints/types.rs", "timingpoints/error.rs"],
  [("TimingPoint::from_str", "timingpoints/mod.rs"), ("TimingPoint::to_string", "timingpoints/mod.rs"), ("Effects, SampleIndex, SampleSet, Volume", "timingpoints/types.rs")])

p("P08", "Hit objects keep position, time, type bits and hit sounds",
  "A hit object line yields exactly the position, time, new-combo flag, combo skip count, hit sounds and kind its fields encode, and prints an equivalent type byte and the same fields back; ill-formed lines are rejected.",
  "every type byte, hit sound value, coordinate and time, every version",
  "Tests cover a handful of type bytes; all 256 values and the combination with each kind matter.",
  ["hitobjects/mod.rs", "hitobjects/types.rs", "src/helper/mod.rs"],
  [("HitObject::from_str", "hitobjects/mod.rs"), ("HitObject::type_to_string", "hitobjects/mod.rs"), ("nth_bit_state_i64", "src/helper/mod.rs"), ("HitSound", "hitobjects/types.rs")])

p("P09", "Sliders, spinners and holds keep their parameters",
  "A slider keeps its curve type, every curve point in order, repeat count and length, a spinner its end time and a hold its end time, and each prints them back unchanged at every version that can express them.",
  "every number of curve points, field value and version",
  "Tests have one or two curve points; point lists, omitted trailing fields and the version 3 layout combine.",
  ["hitobjects/mod.rs", "hitobjects/types.rs"],
  [("HitObject::from_str (slider, spinner, hold)", "hitobjects/mod.rs"), ("CurvePoint, CurveType", "hitobjects/types.rs"), ("HitObject::to_string", "hitobjects/mod.rs")])

p("P10", "Hit samples and slider edge sounds are kept exactly",
  "The hit sample of an object and the per-edge sounds and sample sets of a slider are exactly the ones written, with defaults for omitted parts, and are printed in the layout of the version; ill-formed ones are rejected.",
  "every sample set, index, volume, file name and edge list, every version",
  "Tests use the all-zero sample and one edge list; lengths of lists and each omitted part are separate cases.",
  ["hitobjects/types.rs", "hitobjects/mod.rs"],
  [("HitSample", "hitobjects/types.rs"), ("EdgeSet, SampleSet, SampleIndex, Volume", "hitobjects/types.rs"), ("edge_sounds / edge_sets of SlideParams", "hitobjects/mod.rs")])

p("P11", "Background, video, break and legacy events are kept exactly",
  "Every background, video, break, colour transformation and legacy sprite, animation and sample event line yields exactly the times, names, positions and numbers written, and prints them in the layout of the version; ill-formed lines are rejected.",
  "every event kind, spelling of the kind, field value and version",
  "Tests use a few lines of the newest version; short and long headers, optional positions and number limits are not combined.",
  ["events/normal_event/mod.rs", "events/normal_event/types.rs", "events/normal_event/parsers.rs"],
  [("Background, Video, Break, ColourTransformation", "events/normal_event/mod.rs"), ("SpriteLegacy, AnimationLegacy, SampleLegacy", "events/normal_event/mod.rs"), ("file_name_and_position", "events/normal_event/parsers.rs")])

p("P12", "Sprites, animations and audio samples are kept exactly",
  "Every storyboard sprite, animation and audio sample line yields exactly the layer, origin, file name, position, frame data, time and volume written, and prints them back; ill-formed lines are rejected.",
  "every layer, origin, loop type, number and file name",
  "Ten origins, five layers and two loop types in name and number form exceed the few combinations tested.",
  ["events/storyboard/sprites.rs", "events/audio_sample/mod.rs"],
  [("Object::from_str / to_string_cmd", "events/storyboard/sprites.rs"), ("Origin, Layer, LoopType", "events/storyboard/sprites.rs"), ("AudioSample", "events/audio_sample/mod.rs")])

p("P13", "Storyboard commands keep every field",
  "Every storyboard command line yields exactly the kind, easing, start time, optional end time and parameter values written, in order and with all continuing values, and prints them back; ill-formed commands are rejected.",
  "every command kind, easing, number of continuing values, trigger spelling and value",
  "Tests have one example per command; omitted end times, continuing values and trigger spellings multiply.",
  ["events/storyboard/cmds/mod.rs", "events/storyboard/cmds/types.rs", "events/storyboard/types.rs"],
  [("Command::from_str", "events/storyboard/cmds/mod.rs"), ("Command::to_string_variables", "events/storyboard/cmds/mod.rs"), ("Easing, TriggerType, Parameter", "events/storyboard/types.rs"), ("ContinuingFields, Colours", "events/storyboard/cmds/types.rs")])

p("P14", "Indentation and command nesting mirror each other",
  "The commands under an event form exactly the tree their indentation describes, belong to the event above them, and are printed with the indentation of their depth; a command that is indented too deep, has no event above it or sits under one that cannot hold commands is rejected. Commands pushed in code by depth form the same tree, and one whose depth has no parent (or is 0) is rejected and changes nothing.",
  "every sequence of indentation depths and command kinds under every event kind",
  "The tree depends on the whole sequence of depths; tests use two fixed sequences.",
  ["events/mod.rs", "events/storyboard/cmds/mod.rs"],
  [("Events::from_str_variables", "events/mod.rs"), ("EventWithCommands::try_push_cmd", "events/mod.rs"), ("commands_to_string_variables", "events/mod.rs")],
  ("inputs", "histories"))

p("P15", "Colours are kept exactly",
  "Every colour line yields exactly the kind, combo number and red, green and blue components written and prints them back in order; components above 255, missing components and unknown keys are rejected, and versions before 5 have no colours.",
  "every component, combo number, spacing and version, lists of colours",
  "Tests list a few combos; each component's byte range and position needs all values.",
  ["colours/mod.rs", "colours/types.rs"],
  [("Colour::from_str", "colours/mod.rs"), ("Rgb", "colours/types.rs"), ("Colours::to_string", "colours/mod.rs")])

p("P16", "The 24 ms offset of versions 3 and 4 is applied once and undone",
  "At versions 3 and 4 every time that carries the offset is 24 ms larger in the parsed value than in the text, and 24 ms smaller in the text than in the value when printing; at later versions times are identical, and printing at another version only changes the offset.",
  "every time value, event and object kind and pair of versions",
  "Tests check one time per kind at versions 3 and 14; a forgotten or doubled shift on one path or version needs the pair.",
  ["events/normal_event/mod.rs", "events/mod.rs", "events/audio_sample/mod.rs", "hitobjects/mod.rs", "timingpoints/mod.rs", "types.rs"],
  [("OLD_VERSION_TIME_OFFSET", "mod.rs"), ("time_to_string", "events/normal_event/mod.rs"), ("HitObject::from_str / to_string", "hitobjects/mod.rs"), ("TimingPoint::from_str / to_string", "timingpoints/mod.rs")])

p("P17", "Content is gated by version exactly as documented",
  "Printing a value at a version emits exactly the keys, fields and sections that exist in that version, and defaults for a version contain only what that version can express.",
  "every field and section, every one of the 12 versions",
  "Tests check versions 3 and 14; each threshold lies between two untested neighbours.",
  ["general/mod.rs", "editor/mod.rs", "difficulty/mod.rs", "metadata/mod.rs", "colours/mod.rs", "hitobjects/mod.rs", "timingpoints/mod.rs", "osb/mod.rs"],
  [("version guards in versioned_field! blocks", "general/mod.rs"), ("version match arms of VersionedToString impls", "timingpoints/mod.rs"), ("VersionedDefault impls", "types.rs")],
  ("configurations", "inputs"))

p("P18", "Sections are framed independently of their order and presence",
  "A file's version line and section headers select exactly the text of each section whatever the order and subset of sections; unknown, repeated or malformed sections, stray text and bad version lines are rejected, and the printed file lists present sections once in the fixed order.",
  "every order and subset of the eight sections, every header spelling",
  "40320 orders times subsets; the tests have a few files.",
  ["mod.rs", "src/parsers.rs"],
  [("FromStr for OsuFile", "mod.rs"), ("square_section", "src/parsers.rs"), ("Display for OsuFile", "mod.rs")])

p("P19", "Layout does not change meaning",
  "In .osu files and their sections, CRLF instead of LF line ends and blank lines before, between and after sections and entries do not change the parsed value, and neither do a byte order mark at the start of the file or comment lines before the first section; a comment line among events adds only the comment. Line ends and blank lines do not change a parsed .osb storyboard either.",
  "every placement of the layout variations in a file",
  "Tests have one BOM and few CRLF inputs; each line boundary is a separate place.",
  ["mod.rs", "src/parsers.rs", "events/mod.rs", "src/helper/macros.rs"],
  [("FromStr for OsuFile", "mod.rs"), ("square_section", "src/parsers.rs"), ("get_colon_field_value_lines", "src/parsers.rs")])

p("P20", "Errors name the line and kind of the defect",
  "When exactly one line of an otherwise valid input is defective, the reported error carries the zero-based index of that line and the error kind of its section.",
  "every section, position of the defective line and preceding content",
  "Tests check the line of a few errors in short inputs; line arithmetic over earlier sections, blank lines and comments adds up per input.",
  ["mod.rs", "osb/mod.rs", "events/mod.rs", "types.rs", "hitobjects/mod.rs", "timingpoints/mod.rs", "colours/mod.rs", "src/helper/macros.rs"],
  [("Error::processing_line", "types.rs"), ("line_number bookkeeping in FromStr for OsuFile", "mod.rs"), ("osu_section! line counting", "src/helper/macros.rs")])

p("P21", "Storyboard files and variables expand and fold back",
  "In an .osb storyboard every use of a defined variable in the fields of a command stands for its value, so its events equal those of the storyboard written without variables; printing lists the variables, folds their values back in the fields of commands, and the printed storyboard parses to the same value; malformed variables and sections are rejected.",
  "every variable value and every position of a reference",
  "Tests use one variable; replacement order, overlapping occurrences and positions need more.",
  ["osb/mod.rs", "osb/types.rs", "events/mod.rs", "events/storyboard/cmds/mod.rs", "mod.rs"],
  [("Osb::from_str / to_string", "osb/mod.rs"), ("Variable", "osb/types.rs"), ("variable replacement in Events::from_str_variables", "events/mod.rs"), ("Command::to_string_variables", "events/storyboard/cmds/mod.rs"), ("OsuFile::append_osb / osb_to_string", "mod.rs")])

p("P22", "Bounded values stay in bounds and flags are independent",
  "Constructors and setters of bounded values accept exactly the documented range and leave the old value in place on rejection, setting one flag of a flag set or one value of a timing point changes that one only, and enumerated values convert to their documented numbers and back.",
  "every argument value and every sequence of flag operations",
  "Boundary values on both sides and all flag combinations are not covered by examples.",
  ["hitobjects/types.rs", "events/audio_sample/mod.rs", "timingpoints/types.rs", "timingpoints/mod.rs", "events/storyboard/sprites.rs", "events/storyboard/types.rs"],
  [("ComboSkipCount, Volume, HitSound", "hitobjects/types.rs"), ("Volume", "events/audio_sample/mod.rs"), ("Effects, SampleIndex, Volume", "timingpoints/types.rs"), ("Easing, OriginType conversions", "events/storyboard/types.rs")],
  ("inputs", "histories"))

p("P23", "Continuing values keep their shape under any sequence of operations",
  "After any sequence of pushes, overwrites and construction of continuing command values, only the last element may be shortened, earlier elements are complete, no other element changes, impossible shapes are rejected, and the printed form parses back to the same value.",
  "every sequence of API operations with every argument, up to the bounds",
  "The invariant spans several operations; tests perform single pushes.",
  ["events/storyboard/cmds/types.rs", "events/storyboard/cmds/mod.rs"],
  [("ContinuingFields::{new, push, set}", "events/storyboard/cmds/types.rs"), ("Colours::{new, push, set}", "events/storyboard/cmds/types.rs"), ("continuing_to_string", "events/storyboard/cmds/mod.rs")],
  ("histories", "inputs"))

p("P24", "Decimal literals are kept, and unparsable ones keep their text",
  "Every numeric field that accepts decimals keeps a canonical decimal literal digit for digit through parse and print (a time that carries the offset of versions 3 and 4, when it is whole), and a literal that is not a number is kept as its text wherever the format allows it and printed back unchanged.",
  "every literal, every field that accepts decimals, every version",
  "Tests use short literals; sign, scale, trailing zeros, exponents and non-numbers are separate classes per field.",
  ["types.rs", "hitobjects/mod.rs", "timingpoints/mod.rs", "difficulty/mod.rs", "events/normal_event/mod.rs"],
  [("Decimal", "types.rs"), ("try_make_decimal", "types.rs")])

p("P25", "The text normaliser is idempotent and its comparison an equivalence",
  "Normalising a text twice equals normalising it once; normalising removes only layout (byte order marks, blank lines, spacing around lines and around the first colon of a line, what precedes the sections apart from a leading version line) and sorts only the lines of sections in which every line has a colon; two texts compare equal exactly when their normal forms are equal.",
  "every text and pair of texts",
  "Algebraic laws over all strings; the tests compare a few pairs.",
  ["src/lib.rs"],
  [("osu_str_trimmer", "src/lib.rs"), ("osu_str_eq", "src/lib.rs")],
  ("inputs",))

p("P26", "File names keep their spelling and animation frames are numbered",
  "File names in events keep their exact spelling, are printed back unchanged except that a name with a space is enclosed in quotes when it has none, frame file names of an animation are the base name with each frame number inserted before the extension, and the sprite constructor rejects absolute paths and keeps others.",
  "every file name, extension shape and frame count",
  "Tests have one name; names with several dots, spaces, quotes, directories or no extension differ.",
  ["types.rs", "events/storyboard/sprites.rs", "events/normal_event/parsers.rs"],
  [("FilePath", "types.rs"), ("Animation::frame_file_names", "events/storyboard/sprites.rs"), ("Sprite::new", "events/storyboard/sprites.rs")],
  ("inputs",))

p("P27", "Tempo helpers agree with the stored beat length",
  "An uninherited timing point made from a tempo reports that tempo and no slider velocity, an inherited one reports its slider velocity and no tempo, and the conversions between beat length and tempo follow the documented formulas.",
  "every tempo, multiplier and beat length within the bounds",
  "Arithmetic over all decimals; tests use one value.",
  ["timingpoints/mod.rs"],
  [("TimingPoint::{new_inherited, new_uninherited, calc_bpm, calc_slider_velocity_multiplier}", "timingpoints/mod.rs")],
  ("inputs",))

p("P28", "Entries of a section are independent of each other",
  "Parsing a section text made of two parts, one after the other on lines of their own, gives the entries of the first followed by those of the second (for key sections, the keys of both), fails exactly when a part fails, with the first failing part's error at its line in the whole, and printing the whole gives the prints of the parts one after the other; commands belong to the event above them and are outside this.",
  "every pair of section texts without commands, every version",
  "Tests parse one list each; state carried from one entry to the next shows only when a particular entry comes before or after another.",
  ["events/mod.rs", "hitobjects/mod.rs", "timingpoints/mod.rs", "colours/mod.rs", "src/helper/macros.rs", "src/parsers.rs"],
  [("Events::from_str_variables", "events/mod.rs"), ("HitObjects::from_str", "hitobjects/mod.rs"), ("TimingPoints::from_str", "timingpoints/mod.rs"), ("Colours::from_str", "colours/mod.rs"), ("general_section_inner!", "src/helper/macros.rs")])

p("P29", "Versions differ only where the format changed",
  "Two neighbouring versions read the same text as the same value and print the same value as the same text, except at the versions where the format changed: timing points 4, 5, 6; hit objects 4, 5, 10, 12; colours 5; events 5 and 14; General keys 4, 5, 6, 7, 10, 14; the Editor's CurrentTime at 10; the spacing of Difficulty keys at 5; storyboard files 14. Storyboard commands, Metadata and Editor keys are read alike at every version.",
  "every section text and every pair of neighbouring versions 3..14",
  "Tests parse at version 14 and a few others; a threshold that is off for one field shows only at the one version between the right and the wrong one.",
  ["general/mod.rs", "general/types.rs", "editor/mod.rs", "colours/mod.rs", "events/normal_event/mod.rs", "events/normal_event/parsers.rs", "hitobjects/mod.rs", "hitobjects/types.rs", "timingpoints/mod.rs", "osb/mod.rs"],
  [("version ranges", "hitobjects/mod.rs"), ("version ranges", "timingpoints/mod.rs"), ("version ranges", "general/types.rs"), ("start_time_offset, end_time", "events/normal_event/parsers.rs")],
  ("configurations", "inputs"))

p("P30", "Values built in code print text that parses back to them",
  "A value put together through the public constructors and fields (events, commands and their nesting, objects, timing points, colours, whole files and storyboards) that the version can express is printed as text that parses at that version to an equal value, which prints the same.",
  "every combination of kinds, optional parts and nesting within the bounds",
  "Round-trip tests start from a text; combinations no test text has, such as a loop without commands followed by a sibling, are reached by code only.",
  ["mod.rs", "events/mod.rs", "events/storyboard/cmds/mod.rs", "events/storyboard/sprites.rs", "events/normal_event/mod.rs", "hitobjects/mod.rs", "timingpoints/mod.rs", "colours/mod.rs", "osb/mod.rs"],
  [("Display for OsuFile", "mod.rs"), ("Event::to_string_variables", "events/mod.rs"), ("commands_to_string", "events/mod.rs"), ("HitObject::to_string", "hitobjects/mod.rs")])

p("P31", "A value printed at another version is text of that version",
  "What is read at one version and printed at any other is accepted at that other version and prints there as the same text. Left out: a Mode newer than the version printed at (its number is printed at every version), a beat length with commas (version 3 only), times that become a plain 0.",
  "every section text of one version printed at every other version 3..14",
  "Tests print at the version they parsed; a converter reads one version and writes another, and each of the 132 pairs meets another mix of missing and extra fields.",
  ["mod.rs", "timingpoints/mod.rs", "hitobjects/mod.rs", "hitobjects/types.rs", "colours/mod.rs", "events/mod.rs", "events/normal_event/mod.rs", "events/storyboard/mod.rs", "general/mod.rs", "editor/mod.rs", "metadata/mod.rs", "difficulty/mod.rs", "osb/mod.rs"],
  [("TimingPoint::to_string", "timingpoints/mod.rs"), ("HitObject::to_string", "hitobjects/mod.rs"), ("Colour::to_string", "colours/mod.rs"), ("NormalEvent to_string", "events/normal_event/mod.rs"), ("versioned_field", "general/mod.rs")],
  ("configurations", "inputs"))

p("P32", "An error names the field that is missing or invalid",
  "When a timing point, hit object, colour, event or storyboard command line ends before a field it needs, the error says that this field is missing; when a field holds text outside its domain, the error says that this field is invalid, whatever follows it. The first such field from the left is the one named, alone in its section and in a whole file. Left out: a colour component that only begins with digits, and fields whose text is never invalid.",
  "every required field of every line kind left out, every checked field with any text of up to three characters outside its domain, followed by nothing, good fields or bad ones",
  "Tests assert a few error kinds on chosen lines; the error of a nested alternative parser depends on which branch failed last, so each field, tail and version can go wrong on its own.",
  ["src/parsers.rs", "src/helper/macros.rs", "timingpoints/mod.rs", "hitobjects/mod.rs", "hitobjects/types.rs", "colours/mod.rs", "colours/types.rs", "events/mod.rs", "events/normal_event/mod.rs", "events/normal_event/parsers.rs", "events/storyboard/sprites.rs", "events/storyboard/cmds/mod.rs", "events/audio_sample/mod.rs"],
  [("pipe_vec_versioned_map", "src/parsers.rs"), ("TimingPoint::from_str", "timingpoints/mod.rs"), ("HitObject::from_str", "hitobjects/mod.rs"), ("Command::from_str", "events/storyboard/cmds/mod.rs"), ("Object::from_str", "events/storyboard/sprites.rs")])

# properties without a claimed check, with the reason
NOT = {}


def main():
    have = sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(os.path.join(ROOT, "harness/src/p[0-9][0-9].rs")))
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for k in sorted(P):
            f.write(json.dumps(P[k], ensure_ascii=False) + "\n")
    checks = [{"property": k,
               "quick_cmd": "python3 run.py check %s --tier quick" % k,
               "thorough_cmd": "python3 run.py check %s --tier thorough" % k,
               "technique": "symbolic execution of the crate's LLVM IR with z3",
               "level": "model_checking",
               "level_note": "Every path of the compiled crate within the stated input shapes is explored and every assertion decided for all values (byte domains or z3); bounds are the shapes in harness/src/%s.rs; rustc/LLVM, the engine and z3 are trusted, sampled paths and every counterexample are replayed on the native build." % k.lower()}
              for k in have if k not in NOT]
    na = [{"property": k, "reason": NOT.get(k, "check under construction")} for k in sorted(P) if k not in have or k in NOT]
    m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks: the checks use the public API only. known-findings.json lists known findings and fixed defects."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")


main()
