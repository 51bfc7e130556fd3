DS = "edk2toollib/uefi/edk2/parsers/dsc_parser.py"
P("C23", "A DSC file's modules, libraries, PCDs and components are all listed",
  "For every DSC file: each active line with an .inf file in a component section is listed among the X64, IA32 or other modules by the first architecture of its heading - "
  "with file and line number for the first two - unless it is in a component's block, where, as in a library section, it is listed as a library; each active PCD line is listed once, with "
  "the value of the last declaration. The scoped libraries have for each heading's scopes (no scope is common) and library class, without regard to capitalisation, the instances, the last "
  "declared first and none twice; the components have for each component one entry per architecture of the heading (common stands for the supported ones), with the "
  "instances of class NULL in order and for other classes the last of its block, absolute paths turned into workspace paths. Comments and inactive lines (C17) count for nothing, variables, wherever defined, are "
  "replaced (C19), a condition uses PCDs by their whole names, and the lines of an included file stand in place of the !include, paths in it being relative to it. Assumed of the file: "
  "variables are defined once, in Defines or BuildOptions sections, before use and not by themselves; a PCD in a condition is declared once, before it, outside of component blocks; PCD token spaces have TokenSpaceGuid in their "
  "names; a block opens on its component's line and closes with a brace on its own line; component sections hold components only; absolute paths lie below the workspace or a package path.",
  ["inputs"], "all such files", "tests try a few fixed files",
  [DS, "edk2toollib/uefi/edk2/parsers/base_parser.py"],
  [("lines of both passes", DS + ": DscParser.__ParseDefineLine, __ParseLine, __ProcessDefines, __ProcessMore"),
   ("scopes, libraries, components", DS + ": DscParser._get_current_scope, _parse_libraries, _parse_components, _build_library_override_dictionary")],
  note=DED + "What a line does in each pass and the loops over lines, scopes and architectures are proved for files of any length; the scopes of a heading (up to three) and the PCDs of a condition are bounded symbolic; "
             "whole random files, with includes and conditions, are a labelled random search.")
IT = "edk2toollib/database/tables/instanced_inf_table.py"
P("C24", "Every instance a platform builds is a row linked to its sources and libraries",
  "For every platform and target architecture: the instanced INF table gets a row for each component of a [Components] section of that architecture (or of a common one) that is no library, and, "
  "per component and architecture, one row for each library instance it uses directly or by other libraries, even when libraries use each other in circles. A library class (in any capitalisation) "
  "stands for the instance given in the component's block, else for the first one that supports the component's module type in the section of architecture and module type, of common and "
  "module type, of the architecture, or the common one, in this order; a component also uses the NULL instances of its block and of those four sections. A class without an instance is left out. "
  "A row has the path by the closest package path, however the file is spelled in the platform, and the name, architecture, component, class, package and repository (that of the package, else the one "
  "whose directory contains the file, else the local one); its sources are the files named for common and its architecture, and it is linked once to each row of "
  "the instances that its libraries stand for in the same component. Every parse reads the files anew. INF files without a GUID have no row.",
  ["inputs", "histories"], "all platforms, library graphs and histories of parses", "tests try a dozen small platforms",
  [IT],
  [("instances", IT + ": InstancedInfTable._parse_inf_recursively, _build_inf_table"), ("resolution", IT + ": _lib_to_instance, _reduce_lib_instances, _get_null_lib_instances"), ("rows", IT + ": _insert_db_rows")],
  note=DED + "The depth-first search is proved with ghost sets for library graphs of any size and shape, its recursive call used by its contract; resolution is proved for all dictionaries. The files a "
             "platform names must exist, a component be listed once per architecture, and repositories not lie in one another. Rows, links and the parsers (C20, C23) are cross-checked by whole random workspaces.")

UF = "edk2toollib/utility_functions.py"
P("C25", "A command run ends with its exit code, its whole output in every sink",
  "For every command (given with or without quotes, blanks in its path or not), run by RunCmd with its parameters in a shell: the command runs in the given directory and with the given "
  "environment, even an empty one, instead of the caller's; its exit code is returned, or, on request, a nonzero one, signals included, is raised as an error. With capture, everything the command writes to "
  "stdout and stderr, of any length, decoded by the error policy asked for, is in the outfile and in the outstream, complete and in order, and in the log at the given level, line by line, before RunCmd returns. A failure while the "
  "output is read - bytes that cannot be decoded, a sink that raises, an outfile that cannot be opened - is raised to the caller, and does not leave the command waiting. Without capture "
  "output of any length does not block the command. RunPythonScript runs the script of the absolute path, else of the current directory, else of the first directory of PATH that has it, blanks in its path or not, "
  "with its parameters, the same way. Assumed: the command ends if its output is read or closed; POSIX.",
  ["inputs", "fault_sequences", "schedules"], "all commands, outputs of any length, a failure at any point of reading", "tests run a handful of commands with short output",
  [UF],
  [("reading", UF + ": reader"), ("running", UF + ": RunCmd, PropagatingThread"), ("scripts", UF + ": RunPythonScript")],
  note=DED + "The reading loop is proved for any number of lines and any point of failure; the command's wait is proved against that contract. Real processes are a labelled random search.")

TB = "edk2toollib/database/tables/"
P("C26", "The database tables hold what the workspace, its repositories and platform do",
  "For every workspace, parse and earlier content of the database: each source file outside of Build (by its extension, a directory is none) has one row under its closest package path, with the license of its last SPDX line (else "
  "Unknown) and its number of lines - or, on request, of code, comments and blank lines - as of the last parse; each INF file outside of Build with a GUID has one row, with the GUID, library "
  "class, package and module type of its first parse, linked to the sources (one row each, existing or not) and the libraries it names for any architecture; each directory with a DEC file has one "
  "row, with the repository whose submodule path contains it, else that of the workspace, named after the last part of the address of origin, else of the first remote, else BASE (a workspace that is no "
  "repository has none); each parse has one row with its variables, even empty ones, and the commit of the workspace, UNKNOWN if there is none; each firmware volume of the FDF file that lists files has, for "
  "a parse, one row linked to those of its components which the platform builds, however the file is spelled and whatever options precede it. Edk2DB parses the tables in the order in which they are "
  "registered, with one identifier, and each in a transaction: if it fails, this error is raised, and what it has not committed is undone. Assumed: files that an FDF file names exist, and are built for one architecture.",
  ["inputs", "histories", "fault_sequences"], "all workspaces, repositories and histories of parses", "tests try a few small workspaces",
  [TB + "source_table.py", TB + "inf_table.py", TB + "package_table.py", TB + "environment_table.py", TB + "instanced_fv_table.py", "edk2toollib/database/edk2_db.py"],
  [("rows of files", TB + "source_table.py, " + TB + "inf_table.py"), ("repositories", TB + "package_table.py: PackageTable"), ("parse and volumes", TB + "environment_table.py, " + TB + "instanced_fv_table.py"),
   ("transactions", "edk2toollib/database/edk2_db.py: Edk2DB.session, parse")],
  note=DED + "Every loop over files, sources, submodules, volumes and tables is proved for any number; git, SQLAlchemy and joblib are assumed, and cross-checked by whole random workspaces parsed twice.")

CP = "edk2toollib/windows/capsule/"
P("C27", "A capsule INF says what was asked for; a catalogue is made or an error raised",
  "For every package of any number of firmwares: an INF reader finds in the text made the name (as that of the catalogue), version, date, architecture and system version (in the manufacturer's line and the models section), provider, "
  "manufacturer and disk as given, and for each firmware one model with its GUID in registry format and its description, whose sections copy its payload and, if there is one, its integrity file and nothing "
  "else, set FirmwareId, FirmwareVersion (a DWORD in hexadecimal), FirmwareFilename and, if there is one, FirmwareIntegrityFilename, and allow rollback if that was asked for, and only then; each file is a source file once, "
  "each string used is defined, quotation marks within strings are doubled, and there is nothing else. Names and tags with anything but letters, digits, underscores and dashes, file names that also have no dot, unknown architectures, versions "
  "without one to three dots, firmware versions that are no unsigned 32-bit integers, malformed GUIDs and dates are refused with an error, and a firmware refused has no section. A catalogue is asked for with the INF's folder as the current "
  "one, for the system and architecture given (others are refused); success is reported only if the tool was there, succeeded and left the catalogue, and else an error is raised. Assumed: values are single lines, and tags differ by more than "
  "case, have no dash and do not continue one another.",
  ["inputs", "histories", "fault_sequences"], "all packages, values and outcomes of the tool", "tests compare a few fixed texts",
  [CP + "inf_generator.py", CP + "inf_generator2.py", CP + "cat_generator.py"],
  [("one firmware", CP + "inf_generator.py: InfGenerator"), ("several", CP + "inf_generator2.py: InfFile, InfFirmware, InfFirmwareSections, InfSourceFiles, InfStrings, InfHeader"), ("catalogue", CP + "cat_generator.py: CatGenerator.MakeCat")],
  note=DED + "The loops over firmwares, files and strings are proved for any number, adding a firmware for arbitrary earlier ones, each text by a reference reader over texts of any content; whole random packages and a tool really run cross-check.")

P("C28", "A JUnit report is read back as it was recorded, or is not written",
  "For every sequence of suites, test cases, results and logged texts of any characters: the report written is a well-formed XML document in UTF-8 in which an XML parser finds the suites in order, numbered from 0, each with its name, package and "
  "the numbers of its test cases, failures, errors and skipped ones, and in each suite its test cases in order, each with its name, class name, time from creation to result, the result set (with the message and type of a failure or "
  "error), and all texts logged to output and errors in order, each followed by a line feed and a blank; names, messages, types and texts are read back, line ends, tabs and carriage returns included, as they were given without the blanks "
  "around them, except that characters no XML document can hold come back as U+FFFD. A test case takes one result: setting another raises an error and changes nothing, and a report with a test case without one raises an error and leaves the file as it was.",
  ["inputs", "histories"], "all reports and texts", "tests check that a few reports can be parsed",
  ["edk2toollib/log/junit_report_format.py"],
  [("escaping", "edk2toollib/log/junit_report_format.py: escape"), ("test cases", "JunitReportTestCase"), ("suites and reports", "JunitReportTestSuite.Output, JunitTestReport.Output")],
  note=DED + "Texts are of any content: a reference reader decides for every character how it comes back from what was made of it. The loops over suites and test cases are proved for any number; random whole reports are read by expat.")
P("C29", "Log handlers log what their filters and level let pass, and leave records alone",
  "For every record, level, filters and stream: the colour, file and string handlers emit a record exactly if the filters pass it and its level is the handler's or above, in the form the filters gave it, holding the lock, "
  "which is released even if emission fails, and answer what the filters answered; a string handler adds each record at the end of its stream, on a line of its own, wherever the stream was sought to, and then reads on where it was, so "
  "that nothing logged is overwritten or lost; the colour formatter puts the level's name (up to INFO) or the name and the message (from WARNING) in the colour of the level, or marks them for Azure, and leaves the record as it was, even if it cannot be "
  "formatted. A colour handler writes the formatted text on a line of its own, unchanged, or with exactly its ANSI control sequences removed if that was asked for or the stream is no terminal; outside Windows also if they are to be "
  "converted; a failure is handed to handleError and raises nothing.",
  ["inputs", "histories", "fault_sequences"], "all records, filters, levels, texts and stream positions", "tests log a few records",
  ["edk2toollib/log/ansi_handler.py", "edk2toollib/log/file_handler.py", "edk2toollib/log/string_handler.py"],
  [("which records", "handle of the three handlers"), ("string handler", "edk2toollib/log/string_handler.py: StringStreamHandler.emit"), ("colours", "edk2toollib/log/ansi_handler.py: ColoredFormatter.format, get_ansi_string"), ("control sequences", "ColoredStreamHandler.emit, write_and_convert, convert_ansi")],
  note=DED + "The handlers run on unknown records, levels, texts and positions; removing control sequences is a loop contract over any number of them. What the pattern matches, and files, are cross-checked at random.")

P("C30", "Bytes dumped as text are all there, in order, in the stream asked for",
  "For every byte sequence and start: hexdump and PrintByteList write to the stream given, and only there, rows of up to 16 bytes, each with (as asked) its offset in hex, ' -', the bytes as 0xNN in order with ' -' before the ninth, and its characters, "
  "'.' for those that cannot be printed, in the same column in every row, also in a last row that is not full, and end with a line feed. export_c_type_array writes of all bytes from where the buffer stands to its end a C array "
  "of the name and types given, its length (if asked), every byte in order, bytes_per_row in a row, each row with its characters in a comment (if asked), and the sizeof variable asked for; from an empty buffer it raises ValueError and writes nothing. "
  "Printing a certificate, a signature, a signature list, a database and an authenticated variable shows every field and all its bytes once, in order, in the stream given, in full or compact.",
  ["inputs"], "all bytes, offsets, streams and options", "tests print a few bytes",
  ["edk2toollib/utility_functions.py", "edk2toollib/uefi/authenticated_variables_structure_support.py", "edk2toollib/uefi/wincert.py"],
  [("dumps", "edk2toollib/utility_functions.py: hexdump, PrintByteList"), ("C arrays", "edk2toollib/utility_functions.py: export_c_type_array"), ("printing", "print of WinCertPkcs1, EfiSignatureDataEfiCertX509, EfiSignatureDataEfiCertSha256, EfiSignatureList, EfiSignatureDatabase, EfiVariableAuthentication2")],
  note=DED + "The loops over bytes are contracts over any number of them; rows of C arrays have 1 to 17 or 32 bytes. Random dumps are read back.")

P("C31", "Overrides, build settings and GUID lists are read whole",
  "For every text or file given to the override parser: its entries are, in order and with their line numbers, the lines that start with #OVERRIDE (any case, after blanks); each gives, of what stands behind the first colon, VERSION | PATH | HASH | TIME, "
  "the version, the path in its normal form, the hash and the time, whatever characters path and hash have besides '|'. A malformed line (no colon, a version other than 1, another number of fields, a time not of the form YYYY-MM-DDThh-mm-ss), a text without overrides, "
  "a missing file, or both or neither of file and text is refused with ValueError. For every target.txt: each line that has an '=' without its comment gives the key before the first '=' the whole text behind it as its value, the last one counting; all lines are kept. "
  "For every folder and ignore rules: the GUID list has, with name, upper-case GUID and file, every protocol, PPI and GUID of every DEC file below it, its package (if both name and GUID are stated), and every INF module (likewise), whatever the case of the suffix, "
  "except of files that are ignored or below an ignored folder, each once.",
  ["inputs"], "all texts, lines, folders and rules", "tests read a handful of samples",
  ["edk2toollib/uefi/edk2/parsers/override_parser.py", "edk2toollib/uefi/edk2/parsers/targettxt_parser.py", "edk2toollib/uefi/edk2/guid_list.py"],
  [("overrides", "edk2toollib/uefi/edk2/parsers/override_parser.py: OverrideParser"), ("settings", "edk2toollib/uefi/edk2/parsers/targettxt_parser.py: TargetTxtParser.ParseFile"), ("GUID lists", "edk2toollib/uefi/edk2/guid_list.py: GuidList")],
  note=DED + "The loops over lines, overrides, folders, subfolders, files and declared GUIDs are contracts over any number of them; what a gitignore rule matches is taken as given.")

P("C01", "WIN_CERTIFICATE encoding is length-exact, byte-exact and strict",
  "Decoding a WIN_CERTIFICATE (PKCS#1 v1.5 or UEFI-GUID kind) from a stream at any position consumes exactly the number of bytes its length "
  "field declares, exposes the fields those bytes hold, and encoding the decoded object gives exactly these bytes back; the kind is decided by "
  "the type field alone. Truncated data, a length field smaller than the header or larger than the data, and UEFI-GUID certificates with another "
  "revision, type or GUID are rejected with an error. A certificate built from data encodes with a length field equal to header plus data and "
  "decodes back to the same data.",
  ["inputs"], "all byte strings, stream positions, certificate data of any length, hash algorithm GUIDs",
  "unit tests decode a handful of fixed blobs; lengths, positions and trailing data are unbounded",
  ["edk2toollib/uefi/wincert.py"],
  [("length and header checks on decode", "edk2toollib/uefi/wincert.py: WinCertPkcs1.decode, WinCertUefiGuid.decode, decode_stream"),
   ("length bookkeeping when data is added", "edk2toollib/uefi/wincert.py: add_cert_data"),
   ("kind dispatch", "edk2toollib/uefi/wincert.py: WinCert.factory")], note=DED + "7 contracts, no bounds.")

P("C05", "Firmware update capsules encode and decode without losing or moving a byte",
  "For the UEFI capsule header, the FMP capsule header with any number of embedded drivers and image items, the FMP image header, the FMP "
  "authentication header and the FMP payload header, encoding produces the specified little-endian layout with sizes, counts and item offsets "
  "that match the bytes, and decoding it returns the same field values, the same items in the same order and the same payload bytes. Decoding "
  "any well-formed buffer and encoding it again gives the same bytes (reserved fields and undefined flag bits are written as zero), whatever the "
  "object decoded before. Buffers that are too short, or whose sizes, versions, signatures or offsets contradict the data, are rejected, and "
  "'is signed' holds exactly when a PKCS#7 certificate follows the monotonic count.",
  ["inputs", "histories"], "all field values, payloads of any length, any number (0..65535) of non-empty drivers and images, any prior decode",
  "tests use one driver, one image and fixed blobs; table arithmetic errors appear only with several items or unusual sizes",
  ["edk2toollib/uefi/uefi_capsule_header.py", "edk2toollib/uefi/fmp_capsule_header.py", "edk2toollib/uefi/fmp_auth_header.py",
   "edk2toollib/uefi/edk2/fmp_payload_header.py"],
  [("item offset table", "edk2toollib/uefi/fmp_capsule_header.py: FmpCapsuleHeaderClass.Encode/Decode"),
   ("size checks", "edk2toollib/uefi/fmp_capsule_header.py: FmpCapsuleImageHeaderClass.Decode; uefi_capsule_header.py: Decode"),
   ("nested headers", "edk2toollib/uefi/fmp_auth_header.py, edk2toollib/uefi/edk2/fmp_payload_header.py")],
  note=DED + "Item loops are proved with invariants for any number of items; rejection of malformed item tables is a bounded symbolic check "
  "(at most 2 drivers).")

SIGF = "edk2toollib/uefi/authenticated_variables_structure_support.py"
P("C02", "UEFI signature lists and databases decode and encode byte-exactly",
  "Decoding an EFI_SIGNATURE_LIST from a stream at any position consumes exactly the size its header declares, its k-th signature is exactly the "
  "k-th slice of the declared signature size (owner GUID and data), and encoding gives the same bytes. A database is the concatenation of its "
  "lists: it decodes from any position to the end of the stream into all of its lists in order and encodes back to the same bytes. Lists whose "
  "type is not SHA-256 or X.509, whose sizes are inconsistent, or whose signature size does not fit the type are rejected. Building a list by "
  "adding signatures and merging two hash lists keep all signatures in order and the sizes exact; adding a signature of another size or merging "
  "lists of another type is refused and changes nothing.",
  ["inputs", "histories"], "all byte strings, stream positions, numbers of signatures and lists, signature sizes",
  "tests decode fixed databases with a few signatures; element and list loops run any number of times",
  [SIGF],
  [("element loop and size fields", SIGF + ": EfiSignatureList.decode / encode / AddSignatureData / MergeSignatureList"),
   ("list loop", SIGF + ": EfiSignatureDatabase.decode / encode"),
   ("kinds", SIGF + ": EfiSignatureDataFactory, EfiSignatureDataEfiCertSha256, EfiSignatureDataEfiCertX509")],
  note=DED + "Element and list loops are proved with invariants; rejection of arbitrary malformed headers is proved for lists of up to one "
  "signature and for unsupported kinds of any length.")

P("C03", "Canonical signature databases are sorted, deduplicated and lose nothing",
  "The canonical form of a signature database lists every distinct hash exactly once, ascending by hash bytes, then every distinct certificate "
  "exactly once, ascending; the duplicates form holds exactly the remaining signatures, so that together they hold every signature of the "
  "database. The database itself is unchanged, so a second call gives the same answers. A database containing a list type other than SHA-256 or "
  "X.509 is refused. Sorting one list keeps all its signatures ascending, and sorting with deduplication keeps one of each.",
  ["inputs", "histories"], "all databases (orders, equal contents, numbers of lists and signatures), repeated calls",
  "tests canonicalize two or three fixed databases; order and equality patterns are many",
  [SIGF],
  [("canonical and duplicate forms", SIGF + ": EfiSignatureDatabase.GetCanonicalAndDupes, get_canonical, get_dupes"),
   ("sorting", SIGF + ": EfiSignatureList.SortBySignatureDataValue, EfiSignatureData comparison")],
  level="model_checking",
  note="Bounded: the real functions are executed symbolically over every order and equality pattern of up to 4 signatures in up to 3 lists; one "
  "harness is proved without bound; larger databases are a random search. Not counted as proved.")

P("C04", "Authenticated variables: timestamps, signed digest and packaging are exact",
  "An EFI_TIME decodes exactly when its bytes are an existing date and time, and encodes to those 16 bytes. An EFI_VARIABLE_AUTHENTICATION_2 "
  "structure splits into timestamp, certificate and payload at exactly the declared length, re-encodes byte-exactly, and is refused when the "
  "certificate is truncated or of an unsupported type. The digest that is signed is the variable name (UTF-16 without terminator), vendor GUID, "
  "attributes, timestamp and payload, in that order, for every payload form; the finalized variable is timestamp, PKCS#7 certificate with the "
  "right length, then the payload; the signature verifies over that digest.",
  ["inputs"], "all dates, names, GUIDs, attributes, payloads of any length, stream positions",
  "tests use fixed variables and dates; boundaries of dates and lengths are many",
  [SIGF],
  [("timestamps", SIGF + ": EfiTime"), ("structure", SIGF + ": EFiVariableAuthentication2.decode/encode/write"),
   ("signing", SIGF + ": EfiVariableAuthentication2Builder, _update_digest, sign, finalize")],
  note=DED + "cryptography and pyasn1 are trusted: unwrapping of the ContentInfo and the signature itself are checked by a labelled stand-in that "
  "signs random variables with a real key.")

P("C06", "Variable attributes convert between value, bytes and text without loss",
  "Variable attributes encode as their little-endian 32-bit value and decode from any stream position to that value. Their long and short text "
  "forms name exactly the defined bits that are set, and parsing either form gives the value back. Parsing any comma separated list of names, long "
  "or short, in any order and with repetitions, gives the union of the named bits; an unknown name is refused.",
  ["inputs"], "all 32-bit values, all sets of attributes, any number of names in any order",
  "tests try a few values and texts", ["edk2toollib/uefi/uefi_multi_phase.py"],
  [("codec and text forms", "edk2toollib/uefi/uefi_multi_phase.py: EfiVariableAttributes")], note=DED + "The loop over names is proved with an invariant.")

P("C07", "Variable policy entries decode exactly and malformed ones are rejected",
  "A variable policy entry decodes only if its version, lock type, sizes and name offset agree with the buffer; it then consumes exactly its "
  "declared size and exposes namespace, sizes, attribute masks, lock policy and names (UTF-16 text up to the terminator) exactly as the bytes "
  "hold them, also when the object decoded another entry before. A lock-on-variable-state policy is its GUID, value and terminated name and "
  "consumes exactly these bytes. Entries without terminator, with sizes outside the buffer, or of an unknown version are errors.",
  ["inputs", "histories"], "all buffers, name lengths, lock policies, previous decodes",
  "tests decode a handful of fixed entries", ["edk2toollib/uefi/edk2/variable_policy.py"],
  [("entry decode", "edk2toollib/uefi/edk2/variable_policy.py: VariablePolicyEntry.decode"),
   ("terminated name", "edk2toollib/uefi/edk2/variable_policy.py: VariableLockOnVarStatePolicy.decode"),
   ("csv", "edk2toollib/uefi/edk2/variable_policy.py: VariablePolicyEntry.csv_header, csv_row")],
  note=DED + "The terminator search is proved with a loop invariant for names of any length.")

VFF = "edk2toollib/uefi/edk2/variable_format.py"
P("C08", "Firmware volume, file, FTW and variable headers load and serialize exactly",
  "Loading a firmware volume, FFS file, fault-tolerant-write, variable store or variable header from a stream at any position exposes exactly the "
  "bytes at the specified offsets, leaves the stream position where it was, and serializing gives the same bytes back; headers with a wrong "
  "signature are rejected. A variable (plain or authenticated) built from any name, data and attributes serializes to the specified layout, its "
  "reported sizes (with and without padding to four bytes) equal the serialized sizes, and the end of the variable list is reported as such.",
  ["inputs"], "all field values, stream positions, names and data of any length",
  "tests load a few fixed headers", ["edk2toollib/uefi/pi_firmware_volume.py", "edk2toollib/uefi/pi_firmware_file.py",
   "edk2toollib/uefi/edk2/ftw_working_block_format.py", VFF],
  [("volume headers", "edk2toollib/uefi/pi_firmware_volume.py"), ("file header", "edk2toollib/uefi/pi_firmware_file.py"),
   ("FTW structures", "edk2toollib/uefi/edk2/ftw_working_block_format.py"), ("variables", VFF + ": VariableHeader, AuthenticatedVariableHeader")],
  note=DED + "17 harnesses, no bounds.")

VSM = "edk2toollib/uefi/edk2/variablestore_manulipulations.py"
P("C09", "Editing a variable store keeps every other byte and loses no variable",
  "Opening a variable store in a ROM file succeeds exactly when the volume header, its GUID and length and the store header are those of a healthy "
  "(plain or authenticated) store, wherever it lies in the file and however long the volume header is; the variables listed are all consecutive "
  "variables of the store, up to the terminator or the end of the store and not beyond it. Flushing writes the variables, padded and in order, and "
  "a terminating header right behind them; it is refused, without changing the ROM, exactly when variables and terminator do not fit into the "
  "store; no byte outside that area changes and the file keeps its size. Loading a flushed store again gives the same variables.",
  ["inputs", "histories"], "all ROM contents, store positions and sizes, any number of variables of any size, any sequence of edits",
  "tests use a mocked file with one layout; overruns appear only for nearly full stores",
  [VSM, "edk2toollib/uefi/edk2/variable_format.py"],
  [("loading loop", VSM + ": VariableStore.__init__"), ("capacity check and write loop", VSM + ": VariableStore.flush_to_file")],
  note=DED + "Both loops are proved with invariants for any number of variables; open and mmap are stand-ins, tied to real files by a labelled random search.")

BMP = "edk2toollib/uefi/bmp_object.py"
P("C10", "Bitmaps are read strictly and written back byte for byte",
  "Reading a bitmap from a stream at any position succeeds exactly when the declared file size is the size of the data and the header, color map "
  "and image offset fit into it; the header fields, every color map entry (also with fewer colors than the bit depth allows), the padding and the "
  "image data are exactly the bytes at their places, also when the object held another bitmap before, and writing the object gives the same bytes "
  "back. A bitmap built from fields, colors and data is written in the specified layout, and an empty bitmap is a readable bitmap.",
  ["inputs", "histories"], "all byte strings, stream positions, color map sizes, previous contents", "tests read a few sample bitmaps",
  [BMP],
  [("reading and size checks", BMP + ": BmpObject.PopulateFromFileStream"), ("color maps", BMP + ": BmpColorMap"), ("writing", BMP + ": BmpObject.Write")],
  note=DED + "The color map loops of reading and writing are proved with invariants for any number of entries. The printing methods are not covered.")

DM = "edk2toollib/acpi/dmar_parser.py"
P("C11", "DMAR tables are read completely, in order, and strictly",
  "Parsing a DMAR table terminates for every input. It is accepted exactly when the remapping structures tile everything behind the header, each "
  "of a known type, with device scopes that exactly fill it, each of a known type with an even length. Then the structures, their fields, device "
  "scopes and path entries are exactly the bytes at their places in table order, the RMRR list and ANDD count are those of the structures, and the "
  "DMAR bit is bit 2 of the flags. The path of an RMRR, its XML and the golden list check speak about exactly these scopes.",
  ["inputs"], "all byte strings: any number of structures, scopes and path entries", "tests parse one sample table",
  [DM],
  [("table loop", DM + ": DMARTable.__init__"), ("scope loops", DM + ": DRHDStruct, RMRRStruct, ATSRStruct"), ("path loop", DM + ": DeviceScopeStruct"),
   ("golden list", DM + ": CheckRMRRCount, getPath")],
  note=DED + "Five harnesses are proved without bounds; path text, XML and the golden list are a labelled random search.")

IV = "edk2toollib/acpi/ivrs_parser.py"
P("C12", "IVRS tables are read strictly, re-encode exactly and keep a valid checksum",
  "Decoding an IVRS table is accepted exactly when its bytes sum up to zero and IVHD and IVMD structures of known types tile everything behind the "
  "header up to the declared length; an IVHD is accepted exactly when known device entries tile its length, a range entry exactly when its end "
  "follows, an ACPI device entry exactly when its whole UID is there. Then every field of header, structures and device entries is exactly the "
  "bytes at their places, in order, also when the object held another table before, and encoding gives the bytes back apart from bytes the "
  "format reserves in device entries. Adding a device entry or structure keeps the lengths exact; after adding a structure or updating the checksum "
  "all bytes of the encoded table sum up to zero and nothing else changed.",
  ["inputs", "histories"], "all byte strings: any number of structures and entries, UIDs of every length; previous contents", "tests parse one sample table",
  [IV],
  [("table loop and checksum", IV + ": IVRS_TABLE.Decode, updateACPISum, addIVHDEntry, addIVMDEntry"), ("device entry loop", IV + ": IVHD_STRUCT.Decode"),
   ("device entries", IV + ": DEVICE_TABLE_ENTRY_*")],
  note=DED + "Nine harnesses, all proved without bounds. Printing, XML and the IVRS bit of a table with a block for all peripherals are not covered.")

TS, TM, TD = "edk2toollib/tpm/tpm2_stream.py", "edk2toollib/tpm/tpm2_simulator.py", "edk2toollib/tpm/tpm2_defs.py"
P("C13", "TPM commands are marshalled exactly and answered whole",
  "A TPM primitive or TPM2B is marshalled big-endian with its exact size, or refused when it does not fit; a command is its tag, its total length, "
  "its code and its elements in order, also when an element is updated after it was added. Sending a command to the simulator writes command code, "
  "locality, length and data, and returns exactly the bytes of the next result that is not empty, however the network cuts the stream, or raises an "
  "error when the connection ends before; no byte beyond that result is consumed. A response code is classified (warning, error, parameter, handle, "
  "session, vendor, TPM 1.2) with number and name as the TPM 2.0 specification assigns its bits.",
  ["inputs", "schedules", "histories"], "all element lists, data, fragmentations of the stream, numbers of empty results; all 12 bit response codes",
  "tests marshal a few fixed elements; nothing tests the simulator connection",
  [TS, TM, TD],
  [("marshalling", TS + ": Tpm2CommandStream, TPM2B, Tpm2StreamPrimitive"), ("receive and poll loops", TM + ": read_raw_data, send_data"),
   ("response codes", TD + ": ResponseCode.parse_code")],
  note=DED + "All harnesses are proved; the receive loop for every fragmentation (ghost piece sizes), the poll loop for any number of empty results.")

TP = "edk2toollib/tpm/tpm2_policy_calc.py"
P("C14", "TPM policy digests are those the TPM computes",
  "For every policy tree the digest is the one defined by TPM 2.0: a single claim extends a digest of zeros, an AND extends it by every claim in "
  "order (also equal ones), an OR hashes zeros, the PolicyOR code and the digest of every alternative in order (also equal ones). Localities 0 to 4 "
  "become their bits, one locality from 32 to 255 itself, anything else and any mixture is refused; command code names and numbers belong together "
  "in both directions. More than eight alternatives, components that are no claims, unknown command codes and hash types are refused, and a tree is "
  "valid exactly when all alternatives are.",
  ["inputs"], "all trees: any number of claims, any locality lists, all digests and claim contents", "tests hash a few fixed trees",
  [TP, TD],
  [("tree nodes", TP + ": PolicyTreeOr, PolicyTreeAnd, PolicyTreeSolo"), ("localities", TP + ": PolicyLocality.calc_bitfield_from_list"),
   ("command codes", TP + ": PolicyCommandCode; " + TD + ": CommandCode")],
  note=DED + "Node types are proved for arbitrary children and any number of components; whole trees are a labelled random search.")

DP = "edk2toollib/uefi/device_path.py"
P("C15", "Device paths are read node by node, completely and strictly",
  "Parsing a UEFI device path terminates for every input. It is accepted exactly when nodes tile the data from the first byte to the last, each at "
  "least a header long and each accepted by the reader of its type; then the result is these nodes in order, each read from exactly its own header and "
  "data. The type and subtype decide the class as the UEFI specification assigns them; all others, and the end node, keep header and data unchanged. "
  "Every field of a supported node (PCI, PC Card, ACPI, USB, MAC, IPv4 without its static-address flag, SATA, NVMe, hard drive, file path, firmware "
  "volume and file, offset range) and its printed form are exactly the bytes at their places; data too short for a numeric field is refused, except "
  "for IPv4 and SATA nodes.",
  ["inputs"], "all byte strings: any number of nodes, all 65536 type pairs, all node data", "tests decode a handful of recorded paths",
  [DP],
  [("node loop", DP + ": DevicePathFactory.from_binary, EfiDevicePathProtocol.decode"), ("type table", DP + ": DEVICE_PATH_SUBTYPES, _find_implementation"),
   ("node readers", DP + ": *.from_binary, *.__dict__")],
  note=DED + "All five harnesses are proved without bounds. Two findings (IPv4 static flag, MAC interface type) are pinned by the existing tests.")

FP = "edk2toollib/windows/policy/firmware_policy.py"
P("C16", "Firmware policies survive writing and reading, and are read strictly",
  "Writing a firmware policy gives the specified layout: header, Reserved2 entries and rules in order, then every rule's strings and value, each rule "
  "pointing at exactly its own; numbers or texts that do not fit are refused and then nothing is written. Reading a policy without Reserved1 entries, at any "
  "stream position, by bytes or by stream and into a new or used object, takes every field, entry and rule from exactly its place and refuses whatever "
  "is cut off, too new or no text. Every rule read back is equal to the one written (any Unicode text, 32 and 64 bit numbers) and writes the same "
  "bytes again. Rules are equal exactly when root key, key, name, type and value are; adding a rule that is there already changes nothing; targets "
  "and device policy become exactly their documented rules.",
  ["inputs", "histories"], "all byte strings, offsets, texts, numbers; any number of rules and entries; previous contents",
  "tests read two sample blobs and round-trip one policy",
  [FP],
  [("rule loops", FP + ": FirmwarePolicy.FromFileStream, Serialize, AddRule"), ("rules", FP + ": Rule"), ("values and strings", FP + ": PolicyValue, PolicyString")],
  note=DED + "Ten harnesses are proved without bounds; whole blobs are a labelled random search. Reserved1 entries and values of unsupported types are not covered.")

BP = "edk2toollib/uefi/edk2/parsers/base_parser.py"
P("C17", "Conditional directives keep exactly the code of the first true branch",
  "For build files read line by line with the base parser, at any nesting depth and with any number of branches: the current line is in active code exactly "
  "when in every open chain of !if, !ifdef or !ifndef with its !elseif and !else the current branch is the first whose condition is true (!else: none was). "
  "Directives are recognised in any letter case; !else, !elseif and !endif without an open chain, and !ifdef, !ifndef, !else and !endif with the wrong "
  "number of words, are refused; any other line changes nothing. A condition in which every operand of AND, OR and NOT is parenthesised has its logical "
  "value: ==, !=, <, <=, >, >= compare decimal and hexadecimal numbers of any size by value, TRUE and FALSE are truth values without an order (ordering "
  "against the words is refused), and quoted texts that are neither numbers nor truth words are equal exactly when they are the same, blanks included.",
  ["inputs", "histories"], "all histories of directives, all conditions of their outcomes, any nesting depth, all numbers", "tests sample single conditions and short chains",
  [BP],
  [("chains", BP + ": BaseParser.ProcessConditional, PushConditional, PopConditional, InActiveCode"), ("conditions", BP + ": EvaluateConditional, ComputeResult, ConvertToInt, _ConvertTokensToPostFix, _TokenizeConditional")],
  note=DED + "One directive is proved on an arbitrary stack of any depth, so whole histories follow by induction; comparisons, AND, OR are proved for all operands. Condition "
             "shapes are bounded symbolic; tokenising and whole programs are labelled random searches.")

GP = "edk2toollib/uefi/edk2/parsers/guid_parser.py"
P("C18", "A GUID written as text is read as exactly that GUID, or refused",
  "For every GUID and both notations - C, {0x.., 0x.., 0x.., {0x.., ...}}, and registry, xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx - reading the text gives exactly "
  "that GUID: converting C to registry notation, registry to C notation, to a uuid.UUID, and BaseParser.ParseGuid (upper-case registry notation) agree. Digits and "
  "the prefix 0x may be in either letter case, C numbers may have fewer digits than their field, blanks may surround every C number and the whole text, registry "
  "notation may stand in braces, C notation may end in one semicolon. Any UUID written in either notation is read back as the same UUID. A text with a number missing, "
  "without digits or with too many of them, with one that is not hexadecimal, or with anything else before or behind it is in neither notation: it converts to "
  "the empty string, gives no UUID, and ParseGuid raises RuntimeError for such numbers.",
  ["inputs"], "all 2^128 GUIDs, spellings, blanks and damaged texts", "tests try two GUIDs and three damaged texts",
  [GP, BP],
  [("conversions", GP + ": GuidParser"), ("parsing of build files", BP + ": BaseParser.ParseGuid")],
  note=DED + "All values are proved for texts with one field of any width and blanks of any number in one place; free mixtures are a labelled random search.")

P("C19", "A comment is cut off where it starts and each variable replaced where it stands",
  "For every line of a build file: StripComment returns the text before the first '#' that is outside of a quoted string, without blanks around it; a string "
  "opened by one kind of quotation mark ends at the next one of the same kind, and a quotation mark behind a backslash (itself not behind a backslash) neither "
  "opens nor ends one. ReplaceVariables replaces every $(NAME) by the value of NAME - the input variable if there is one, else the one defined in the file, "
  "with true and false in upper case - and changes nothing else: unknown names stay, except that in !if and !elseif they become 0; a '$' without '(' and a '$(' "
  "that is never closed are left alone; a value is not expanded again, and one that refers to its own variable becomes empty. !ifdef and !ifndef lines become "
  "the directive followed by 1 if the macro (with or without $( )) is defined and 0 if it is not.",
  ["inputs"], "all lines, names and values", "tests try fifteen comments and a dozen variables",
  [BP],
  [("comments", BP + ": HashFileParser.StripComment"), ("variables", BP + ": BaseParser.ReplaceVariables, _FindReplacementForToken")],
  note=DED + "Comments are proved for lines of any length (loop invariant over the characters), single references for any texts; lines with two references are bounded symbolic; "
             "more are a labelled random search.")

DE = "edk2toollib/uefi/edk2/parsers/dec_parser.py"
IN = "edk2toollib/uefi/edk2/parsers/inf_parser.py"
P("C20", "Every entry of a DEC or INF file is listed for its section, and nothing else is",
  "For every DEC or INF file: the entries of each section - whatever the capitalisation of its heading, the architectures it names, and the blanks, comments and "
  "empty lines around - are listed in the attribute of that section, in order, and nothing else is. DEC: library classes with name and path, protocols, PPIs and GUIDs "
  "with name and GUID (a GUID that is none is refused), PCDs with token space, name, value, type and number (a '|' in a quoted value does not separate; lines in the "
  "braces of a structured PCD are not PCDs; Name.Field|Value sets a field), include paths, and the definitions, each entry with the package's name. INF: packages, "
  "libraries, protocols, PPIs, GUIDs, PCDs, sources and binaries up to the first '|', the definitions, the library class and its phases (all of them if none or BASE), and for "
  "each architecture named by the heading (else common) the libraries and sources; get_libraries and get_sources unite those for common and the given architectures. "
  "In an INF file variables from earlier DEFINE lines are replaced.",
  ["inputs"], "all files", "tests try one DEC file and a dozen INF files",
  [DE, IN],
  [("DEC", DE + ": DecParser._Parse, the declaration entries"), ("INF", IN + ": InfParser.ParseFile, get_libraries, get_sources")],
  note=DED + "The loops over the lines are proved for files of any length with a ghost automaton, given the contracts of StripComment and ReplaceVariables (C19); splitting a PCD at its "
             "bars and whole files are a labelled random search.")

PU = "edk2toollib/uefi/edk2/path_utilities.py"
P("C21", "Workspace paths convert to the nearest root, package and module",
  "For every workspace, list of package paths and tree below them, with paths in either style and without '..': an absolute path converts to the path relative to the "
  "deepest package path that contains it, else to the workspace if that contains it, else to None; a relative path converts to the one in the workspace if it exists "
  "there, else to the one in the first listed package path where it exists, else None. GetContainingPackage names the nearest directory with a .dec file (from the path "
  "itself if it is a directory, else from its parent) below the workspace, or below the first listed package path that contains the path if the workspace does not. "
  "GetContainingModules gives the path itself if it is an .inf file, else the .inf files of the nearest parent directory that has any, below the outermost root that "
  "contains the path; none for a path outside of all roots or a root itself. Package paths may be absolute, relative to the workspace or else to the current directory; "
  "one that is no directory is refused or dropped as asked. A build file parser finds a file (FindPath) at its absolute path, else below its root path, else in the folder "
  "of the file being parsed, else where a relative path converts to, and gives the absolute path; None if it is at none of these.",
  ["inputs", "configurations"], "all trees, roots and paths", "tests try a few fixed trees",
  [PU, "edk2toollib/uefi/edk2/parsers/base_parser.py"],
  [("conversions", PU + ": Edk2Path.GetEdk2RelativePathFromAbsolutePath, GetAbsolutePathOnThisSystemFromEdk2RelativePath"),
   ("searches", PU + ": Edk2Path.GetContainingPackage, GetContainingModules"),
   ("search of the parsers", "edk2toollib/uefi/edk2/parsers/base_parser.py: BaseParser.FindPath")],
  note=DED + "Any number of package paths, any depth and contents are proved against abstract paths (GetContainingModules: up to two package paths besides the workspace); "
             "the constructor and whole trees are a labelled random search.")

FD = "edk2toollib/uefi/edk2/parsers/fdf_parser.py"
P("C22", "Every statement of an FDF file is listed for its firmware volume",
  "For every FDF file whose blocks are closed, with a FILE's opening brace on the FILE's line and headings that name one volume or device: a volume or device is listed "
  "under its name from the first statement of its section on; each INF statement of a volume is listed in order with its text behind the keyword; each FILE statement is listed with its "
  "name and type, and each 'SECTION kind = value' of its block - however deep in guided or compressed ones - under that kind, in order, and each guided section under its GUID; keywords in any "
  "capitalisation and followed by any blanks. Entries of the Defines section with one equals sign are recorded and are variables from there on; a DEFINE elsewhere is a "
  "variable until the next heading. Comments, blank lines, directives and inactive code (C17) count for nothing, however many there are, variables are replaced (C19), and the "
  "lines of an included file stand in place of the !include.",
  ["inputs"], "all files", "tests try six files",
  [FD],
  [("statements and blocks", FD + ": FdfParser.ParseFile"), ("lines", FD + ": FdfParser.GetNextLine, InsertLinesFromFile")],
  note=DED + "The loops over statements and over the lines of a block are proved with ghost automata for files and blocks of any length and any nesting, given the contracts of the line functions (C17, C19); "
             "included files of up to three lines are bounded symbolic; whole files are a labelled random search.")
