"""Writes properties.jsonl (run by hand after editing)."""
import json, os

T = "The tests load a handful of recorded sample logs and compare counts or written files; "
P = []


def p(id, title, statement, over, text, why, files, mechanism, observe):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": None}})


p("C01", "Samples are decoded exactly",
  "Every well-formed log loads into one dataset per topic and instance that has samples, ordered by name and instance, whose columns (flattened nested and array fields without trailing padding) hold exactly the logged values, bit for bit, in log order and with the type of the format definition. Values of one topic, instance or field never show up in another, whatever else is logged in between.",
  ["inputs"], "all well-formed ULog files: any format definitions, nesting, arrays, padding, instances, sample values and interleaving with other messages",
  T + "they never see most types, nestings, paddings and interleavings.",
  ["pyulog/core.py"], [("format flattening", "ULog._MessageAddLogged"), ("sample buffers", "ULog._MessageData, ULog.Data")], ["ULog.data_list", "ULog.get_dataset"])
p("C02", "Metadata is decoded exactly",
  "Information and multi-information values, initial, default (system and current setup) and changed parameters with their times, logged and tagged text messages, dropouts, flags, versions and the start and last time of every well-formed log are available exactly as logged. Later values replace earlier ones only where the format says so, and continued multi-informations stay with their message.",
  ["inputs"], "all well-formed ULog files with any sequence of metadata messages, value types and default types",
  T + "few value types, no combination of default bits, no undecodable text.",
  ["pyulog/core.py"], [("message classes", "ULog._MessageInfo, _MessageParameterDefault, MessageLogging, MessageLoggingTagged, MessageDropout")],
  ["ULog.msg_info_dict", "ULog.initial_parameters", "ULog.changed_parameters", "ULog.logged_messages", "ULog.dropouts"])
p("C03", "A partial load is a projection of the full load",
  "Loading with a topic filter gives exactly the datasets of these topics and the same metadata as the full load; loading only the header gives exactly the definitions. A path, an open file and a repeated load give the same log, and loading one log does not influence another, also while both are being read.",
  ["inputs", "configurations"], "all logs, filter lists, sources (path, file object) and orders of loads",
  "The tests use one filter on one log; the relation must hold for every filter and log.",
  ["pyulog/core.py"], [("filtered ids", "ULog._read_file_data"), ("parse_header_only", "ULog._load_file")], ["ULog(...)"])
p("C04", "A written log loads back equal",
  "write_ulog of any loaded log produces a well-formed log that holds the same definitions, metadata, samples and messages: loading it gives an equal log, an independent decoder reads the same content from it, samples and messages are in time order, and writing that again gives the same messages.",
  ["inputs"], "all loadable logs, complete or loaded with a filter",
  "One test round-trips the sample logs with pyulog as its own judge; types, texts and orders that the samples lack are not reached.",
  ["pyulog/core.py"], [("writer", "ULog.write_ulog and the _write_* methods")], ["ULog.write_ulog"])
p("C05", "A log that ends anywhere gives everything before the end",
  "A log cut at any byte after its header (power loss) loads without an error and gives exactly the content of the complete messages before the cut; ending early is not reported as file corruption.",
  ["inputs", "crash_points"], "every well-formed log and every byte offset at which it may end",
  "One sample log is truncated; there are as many cut points as bytes.",
  ["pyulog/core.py"], [("short reads", "ULog._read_file_definitions, ULog._read_file_data")], ["ULog(...)"])
p("C06", "Damage in the data section is contained and reported",
  "Unknown message types are skipped without losing anything. A malformed message or a corrupt stretch in the data section loses only itself (up to the next sync message), never raises, never invents or alters content outside of it, and file_corruption reports it.",
  ["inputs", "fault_sequences"], "all logs and all malformed messages, corrupt stretches and bit damage inserted in their data section",
  "One recorded corrupt log is tested for the number of samples; kinds and places of damage are unlimited.",
  ["pyulog/core.py"], [("corruption check and resynchronisation", "ULog._check_packet_corruption, ULog._find_sync")], ["ULog.data_list", "ULog.file_corruption"])
p("C07", "Any input is refused or gives a consistent log",
  "Loading any sequence of bytes terminates in time proportional to its size. Files without the ULog header are refused with TypeError, logs with unknown incompatible features are refused, and everything that loads is internally consistent (equal column lengths, declared types, sorted distinct datasets).",
  ["inputs"], "all byte sequences", "No test feeds anything but recorded logs.",
  ["pyulog/core.py"], [("header and flags", "ULog._read_file_header, ULog._read_file_definitions"), ("main loop", "ULog._read_file_data")], ["ULog(...)"])
p("C08", "Appended data is complete",
  "A log with data appended after a crash loads every message of the base part and of every appended part exactly once, although the parts may end in a cut message.",
  ["inputs", "crash_points"], "all logs with up to three appended parts, all cut points at the end of each part, with or without corrupt stretches",
  "The one sample with appended data is missing from the repository, so nothing is tested.",
  ["pyulog/core.py"], [("appended offsets", "ULog._load_file, ULog._read_file_data(read_until)")], ["ULog.data_list", "ULog.has_data_appended"])
p("C09", "Equality of logs means equal content",
  "Two loaded logs compare equal exactly if their content is equal; a difference in any sample, text, parameter, time, flag, format or dataset makes them unequal. Equality is symmetric, and holds between a log from a file and the same log from a database.",
  ["inputs"], "all pairs of logs, in particular those that differ in one place",
  "Tests compare logs with themselves, and a comparison that forgets a part still passes.",
  ["pyulog/core.py", "pyulog/db.py"], [("__eq__", "ULog, ULog.Data, ULog.Message*")], ["=="])
p("C10", "The database returns the log that was stored",
  "A log saved in the database and loaded from it, at once, lazily or dataset by dataset, by another connection, has the same content as the log of the file, compares equal to it and is written as the same file.",
  ["inputs"], "all logs within the documented limits of the schema, with other logs in the database, loaded by any route",
  "Tests store two sample logs.", ["pyulog/db.py"], [("save/load", "DatabaseULog.save, load, get_dataset")], ["DatabaseULog"])
p("C11", "Logs in a database are independent",
  "Over any sequence of saving, opening, loading, deleting and saving again, the database holds exactly the logs that were saved and not deleted: each is found by its key and by the hash of its file, a stored file is not stored twice, deleting removes all and only the rows of one log, and other logs keep loading unchanged.",
  ["histories"], "all sequences of operations over several logs and log objects on one database",
  "Tests have one history of save and delete.", ["pyulog/db.py"], [("foreign keys with cascade", "DatabaseULog.get_db_handle, pyulog/sql"), ("hash lookup", "DatabaseULog.save")], ["DatabaseULog", "tables of the database"])
p("C12", "Saving and deleting a log is atomic",
  "At no time, also after an error or the death of the process at any point of a save or delete, does the database show a part of a log: another connection sees all of it or nothing, and the operation can be repeated.",
  ["crash_points", "fault_sequences"], "every statement of every save and delete as the place of an error, an interruption or the end of the process",
  "No test injects a fault.", ["pyulog/db.py"], [("transaction", "DatabaseULog.save, delete")], ["tables of the database"])
p("C13", "Migration keeps every log and is all or nothing",
  "A database of any older schema version, migrated at once, stepwise or after interruptions, ends with the current schema and the same logs. Each migration script is applied completely with its version number or not at all, in order, a database of an unexpected version is refused, and a dry run changes nothing.",
  ["crash_points", "histories", "inputs"], "all contents of old databases, all interruption points, all sequences of good and bad scripts",
  "Tests migrate empty databases only.", ["pyulog/migrate_db.py", "pyulog/sql/*", "pyulog/db.py"], [("user_version and transaction per script", "migrate_db.migrate_db")], ["tables and user_version of the database"])
p("C14", "CSV export shows every sample",
  "ulog2csv writes one file per requested topic and instance, with the timestamp first and every field once, in which every cell read back by a CSV reader is the logged value; text fields appear as text and time limits select exactly the samples within them.",
  ["inputs", "configurations"], "all logs, texts, delimiters, topic lists, time limits and output directories",
  "The tool is not run by the stable tests.", ["pyulog/ulog2csv.py"], [("convert_ulog2csv", "pyulog/ulog2csv.py")], ["files written"])
p("C15", "extract_message returns the samples of a topic",
  "extract_message gives the samples of instance 0 of exactly the named topic as records, in order, with all fields and exact values, restricted to the time limits; an absent topic is an AttributeError.",
  ["inputs", "configurations"], "all logs, topic names (also ones that contain each other) and time limits",
  "One test extracts one topic of one log.", ["pyulog/extract_message.py"], [("extract_message", "pyulog/extract_message.py")], ["return value"])
p("C16", "Parameter export is exact",
  "ulog_params writes every parameter of the chosen kind (initial, final, changed, default) exactly once, in every output format, with its name, value and type unchanged.",
  ["inputs", "configurations"], "all parameter sets and histories of changes, formats, delimiters and options", "The tool is not run by the stable tests.",
  ["pyulog/params.py"], [("formats", "pyulog/params.py main")], ["standard output or file written"])
p("C17", "ulog_info describes the log",
  "ulog_info prints the start time, duration, dropouts, version, information messages and, per topic and instance, the size and number of samples as they are in the log, reports corruption, and prints a requested multi-information message completely.",
  ["inputs", "configurations"], "all logs and options", "The tool is not run by the stable tests.", ["pyulog/info.py", "pyulog/core.py"],
  [("show_info, show_info_multiple", "pyulog/info.py"), ("version", "ULog.get_version_info_str")], ["standard output"])
p("C18", "ulog_messages shows all messages in order",
  "ulog_messages prints every text message and, for PX4 logs, every event that its definitions can decode, each once, with its time and level, ordered by time; duplicates of events (trailing tab) are left out, and definitions of one log are not used for another.",
  ["inputs", "histories"], "all logs with text messages and events, all states of the definitions, all sequences of logs decoded by one decoder",
  "The tool is not run by the stable tests; one log with events is decoded.", ["pyulog/messages.py", "pyulog/px4_events.py"],
  [("merge by time", "pyulog/messages.py main"), ("definition cache", "PX4Events")], ["standard output", "PX4Events.get_logged_events"])
p("C19", "KML shows the track",
  "The KML of a log holds, per position topic, the positions with a fix, thinned to the minimum interval, at the right place and altitude, split into lines at changes of the flight mode that are named and colored by mode, and one point per camera trigger.",
  ["inputs", "configurations"], "all tracks, fix states, flight mode changes, field conventions, intervals, offsets and styles", "The tool is not run by the stable tests.",
  ["pyulog/ulog2kml.py"], [("convert_ulog2kml, _kml_add_position_data", "pyulog/ulog2kml.py")], ["file written"])
p("C20", "The ROS 2 bag holds every convertible sample",
  "Every topic with a matching message definition is written to the bag under the name and type of its topic and instance, every sample once, with all field values and its time in nanoseconds; other topics are skipped completely, the printed totals are true, and old and new versions of the bag writer are both used correctly.",
  ["inputs", "configurations"], "all logs, message definitions, versions of rosbag2 and options", "ROS 2 is not available to the tests.",
  ["pyulog/ulog2ros2bag.py"], [("convert_ulog2ros2bag, calc_msgtype", "pyulog/ulog2ros2bag.py")], ["calls of the bag writer", "standard output"])
p("C21", "The GPS dump is split without loss",
  "The two files written by ulog_extract_gps_dump are exactly the bytes sent to and received from the chosen GPS, in log order; nothing is written without such messages or for an unknown message layout.",
  ["inputs", "configurations"], "all sequences of dump messages, lengths, directions and instances", "The tool is not run by the stable tests.",
  ["pyulog/extract_gps_dump.py"], [("main", "pyulog/extract_gps_dump.py")], ["files written", "exit code"])
p("C22", "Value changes are complete",
  "The changes listed for a field are the first sample with a time and every later one whose value differs from the one before, with their times; samples without a time are ignored.",
  ["inputs"], "all columns of all types with any repetitions, NaN and zero timestamps", "One test checks one field.",
  ["pyulog/core.py"], [("list_value_changes", "ULog.Data")], ["ULog.Data.list_value_changes"])
p("C23", "PX4 helpers agree with their definitions",
  "The roll, pitch and yaw added to attitude topics describe the rotation of the logged quaternion and nothing else changes; vehicle type, estimator, RC mapping and version texts follow from the initial parameters and information messages of the log.",
  ["inputs"], "all unit quaternions including +-90 degrees pitch, all parameter sets and versions", "Tests use one log.",
  ["pyulog/px4.py", "pyulog/core.py"], [("PX4ULog", "pyulog/px4.py"), ("get_version_info", "ULog")], ["PX4ULog methods", "ULog.get_version_info"])
p("C24", "Invalid text is ignored or refused as chosen",
  "With string errors ignored, bytes that are not UTF-8 vanish from strings and nothing else changes; otherwise such a log raises UnicodeDecodeError and valid logs load the same. The options of the command line tools mean the same, and one load does not influence the next.",
  ["inputs", "configurations", "histories"], "all logs with invalid bytes in any string, both modes in any order, all tools", "No test has invalid text.",
  ["pyulog/core.py", "pyulog/info.py", "pyulog/params.py", "pyulog/ulog2csv.py", "pyulog/ulog2kml.py", "pyulog/extract_gps_dump.py", "pyulog/extract_message.py"],
  [("parse_string", "ULog.parse_string")], ["ULog(...)", "output of the tools"])
p("C25", "JSON columns mirror the samples",
  "With append_json every stored field also has valid JSON that maps each timestamp to its value (null for values JSON cannot express), usable with json_each; without it there is none.",
  ["inputs"], "all logs with any field types and values", "One test checks one sample log for one value.",
  ["pyulog/db.py"], [("save(append_json)", "DatabaseULog.save")], ["ULogField.ValueJson"])
p("C26", "Concurrent users of a database do not disturb each other",
  "When several connections save, delete, open, load and look up logs of one database, or migrate it, at the same time, then whatever the interleaving of their statements each operation either fails without effect because the database is busy for longer than a moment (or because the file was stored, or the database migrated, in the meantime), or has the result and the effect that it has at one moment between its start and its end: a load gives a whole log or KeyError, a file is stored once, and the database can still be migrated and holds every log afterwards.",
  ["schedules", "histories", "inputs"], "all interleavings of the statements of concurrent operations",
  "Tests use one connection after the other.", ["pyulog/db.py", "pyulog/migrate_db.py"], [("one transaction per operation", "DatabaseULog.load, save, delete, get_dataset; migrate_db._read_migration_file")], ["results of the operations", "tables and user_version of the database"])
p("C27", "Tools write their results and nothing else",
  "Every tool creates or replaces exactly the files that it is documented to write, completely and whatever was in them before, and gives the same again when it is repeated; the log and all other files stay as they are. With an input that is missing or is not a readable log it fails (exception or exit code) and writes nothing.",
  ["inputs", "configurations", "histories"], "all logs, tools, options, file names, earlier content of the directories and unreadable inputs",
  "The tests compare the printed output of one log in an empty directory.", ["pyulog/ulog2csv.py", "pyulog/params.py", "pyulog/ulog2kml.py", "pyulog/extract_gps_dump.py", "pyulog/core.py"],
  [("output files", "main() of the tools, convert_ulog2csv, convert_ulog2kml, ULog.write_ulog")], ["files below the directories of the input and the output", "exit codes"])
p("C28", "An edited log is written, stored and compared as it is",
  "When samples, rows, datasets, parameters, information, texts, dropouts or parameter changes of a loaded log (from a file or a database) are changed or removed through its public attributes, write_ulog, saving in a database and == show exactly the changed content; other loads of the file and the stored log do not change.",
  ["inputs", "histories"], "all logs and sequences of edits that keep the types of the columns",
  "No test edits a log.", ["pyulog/core.py", "pyulog/db.py"], [("writing the current data", "ULog.write_ulog, DatabaseULog.save, ULog.__eq__")], ["written files", "logs loaded from the database", "=="])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80
            f.write(json.dumps(x) + "\n")
