#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "src/libcatnip/"
QC, MX, ST = L + "qc_functions.cpp", L + "matrix.cpp", L + "string_support.cpp"
LOG, PUN, FR = (L + "io/file_readers/%s.cpp" % x
                for x in ("logreader", "punreader", "filereader"))
AP, IO, PA = L + "io/argumentparser.cpp", L + "io/io.cpp", L + "parameters.cpp"
CJ = "src/tools/main.cpp"
ARG = L + "io/arguments/"
PROP = L + "io/arguments/properties/"

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe,
         technique, note):
    assert len(title) <= 80, (pid, len(title))
    assert statement.count(". ") <= 2, (pid, statement.count(". "))
    P.append((dict(id=pid, title=title, statement=statement,
                   quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files,
                                mechanism=[dict(name=a, where=b)
                                           for a, b in mech],
                                observe_at=observe, hook_needed=None)),
              technique, note))


CLI = "standard output, standard error and exit status of calc_J"
API = "return values, exceptions and exit status of the public library calls"

prop("C01", "Coupling without counterpoise follows the projection formulas",
     "For every consistent set of dimer and monomer files without counterpoise, "
     "calc_J reports J_ab, e_a, e_b, S_ab and J_eff, each once and in eV (S_ab "
     "without unit), as given by the dimer-projection formulas applied to the "
     "chosen monomer orbitals, the dimer orbitals and energies, and the dimer "
     "overlap, within rounding. If a file lacks the data that tells which basis "
     "functions belong to which atom, the files are used in the order given and "
     "a warning says so, otherwise there is no warning.",
     ["inputs"], "all consistent files: numbers of atoms, elements, basis "
     "functions per atom, orbitals, restricted or not, layouts of the files",
     "the tests compare a few integrals of shipped molecules with wide "
     "tolerances and the program itself is run by no stable test",
     [QC, CJ, MX], [("projection and orthogonalisation", QC), ("driver", CJ)],
     [CLI], "sanitized executions of calc_J on generated files against an "
     "independent reference calculation", "random systems, tolerance derived "
     "from the written digits")
prop("C02", "Coupling with counterpoise follows the projection formulas",
     "For every consistent set of files made with counterpoise (both monomers "
     "hold the functions of the whole dimer, including ghost atoms), calc_J -cp "
     "reports J_ab, e_a, e_b, S_ab and J_eff as given by the dimer-projection "
     "formulas applied to the full-length monomer orbitals, within rounding. "
     "This holds for any order of the atoms in each of the three calculations.",
     ["inputs"], "all consistent counterpoise files",
     "no stable test runs a counterpoise calculation through the program",
     [QC, CJ], [("projection with full-length orbitals", QC)], [CLI],
     "sanitized executions of calc_J on generated files against an independent "
     "reference calculation", "random systems, tolerance derived from the "
     "written digits")
prop("C03", "Results do not depend on the order of atoms in the files",
     "If the same system is written with the atoms of the dimer, of the first or "
     "of the second monomer in another order (with everything that belongs to "
     "the atoms reordered along), with or without counterpoise, calc_J reports "
     "the same five quantities within rounding. Atoms are told apart by their "
     "coordinates, to the decimals that Gaussian prints, even when they nearly "
     "coincide or share some coordinates.",
     ["inputs"], "all permutations of atoms of all systems and basis sizes",
     "the unit tests reorder two or three fixed small matrices",
     [QC, MX, CJ], [("matching of coordinates", MX), ("reordering", QC)], [CLI],
     "metamorphic monitor over sanitized executions of permuted files, with an "
     "independent reference", "random permutations of random systems")
prop("C04", "An orbital is chosen relative to HOMO or LUMO, or refused",
     "For each monomer, HOMO-n is the n-th orbital below the highest occupied "
     "one and LUMO+n the n-th above the lowest unoccupied one, and the reported "
     "result is that of exactly the chosen pair. A number that leads to an "
     "orbital that does not exist, or a positive number with HOMO or a negative "
     "one with LUMO, is refused with an error exit and no result.",
     ["inputs"], "all orbital counts, occupations, orbital types and numbers, "
     "from far below to far above the range",
     "the tests use a handful of orbitals in the middle of the range",
     [QC, CJ, IO], [("orbital selection", QC), ("limits of numbers", IO)], [CLI],
     "sanitized executions over every number in and around the range against "
     "the reference of each orbital", "all numbers of random systems")
prop("C05", "Spins are chosen independently and never mixed up",
     "For unrestricted calculations the coefficients, energies and occupation "
     "used for the dimer and for each monomer are those of the spin that was "
     "asked for, for all eight combinations, and Alpha is used when none is "
     "given. A spin that a file does not hold is refused with an error exit and "
     "no result.",
     ["inputs", "configurations"], "all combinations of spins, all files with "
     "one or two spins", "no stable test makes a calculation with Beta orbitals",
     [CJ, LOG, PUN, IO], [("selection of spins", CJ), ("sections per spin", PUN)],
     [CLI], "sanitized executions of all spin combinations against references "
     "that differ pairwise", "all eight combinations of random systems")
prop("C06", "Coefficient files are read completely and exactly",
     "Reading a coefficient file (.pun, .orb or .7) gives for each spin in it "
     "every coefficient of every orbital, in order and with the value that is "
     "written (any exponent, sign, touching columns), says whether the file is "
     "restricted, and has no matrix for a spin that is not there. This holds for "
     "any number of functions and orbitals, whatever the last line looks like, "
     "and however the spins are separated.",
     ["inputs"], "all well-formed coefficient files",
     "the tests read two shipped files and compare a few numbers",
     [PUN, FR], [("reading of coefficient lines", PUN)], [API],
     "sanitized readings of generated files compared with the generating data",
     "random shapes and layouts")
prop("C07", "The overlap matrix is read completely and symmetrically",
     "Reading a log file gives the symmetric overlap matrix of its last overlap "
     "section, every element with the value that is written, for any number of "
     "functions, including one to five, exact multiples of five, and last "
     "columns of any width. A file without such a section has no overlap "
     "matrix, and asking for it is refused.",
     ["inputs"], "all well-formed overlap sections",
     "the tests read one shipped file", [LOG],
     [("reading of triangular blocks", LOG)], [API],
     "sanitized readings of generated files compared with the generating data",
     "random sizes 1 to 90 and surroundings")
prop("C08", "Orbital energies and occupation are read completely and in order",
     "Reading a log file gives for each spin all orbital energies of its last "
     "energy section in order, and the number of occupied orbitals (none for beta "
     "in a hydrogen atom), also when neighbouring energies touch each other or "
     "overflow their columns (such an energy is unknown but counted). Data of earlier sections and of the other "
     "spin does not leak in.",
     ["inputs"], "all well-formed energy sections",
     "the tests read one shipped file", [LOG],
     [("splitting of energies", LOG), ("counting of occupied orbitals", LOG)],
     [API], "sanitized readings of generated files compared with the generating "
     "data", "random energies, widths and section orders")
prop("C09", "Geometry and basis functions per atom are read per atom",
     "Reading a log file gives the coordinates of all atoms of its last geometry, "
     "in order, and for each atom of the last population section its element, the "
     "number of its basis functions and its populations, for any number of atoms "
     "and functions and also where blanks or carriage returns end the lines. A "
     "file without a population section has no basis function counts.",
     ["inputs"], "all well-formed geometries and population sections",
     "the tests read one shipped file", [LOG],
     [("geometry section", LOG), ("population section", LOG)], [API],
     "sanitized readings of generated files compared with the generating data",
     "1 to 130 atoms, up to 24 functions per atom")
prop("C10", "Files that contradict one another are refused",
     "If the six files do not belong together - basis functions, orbitals, "
     "energies, atoms or geometries of the monomers and the dimer do not fit in "
     "number or position, or counterpoise was used for the files but not asked "
     "for or the reverse - calc_J ends with an error and reports no result. It "
     "never reports numbers for them.",
     ["inputs"], "all ways in which otherwise complete files can disagree",
     "the tests only use files that fit", [CJ, QC, MX],
     [("dimension checks", QC), ("one-to-one matching", MX)], [CLI],
     "sanitized executions on consistent files changed in one respect, judged by "
     "refusal", "one contradiction at a time, all kinds, random systems")
prop("C11", "Damaged files never give a different result silently",
     "If a file ends early at any point, lacks data lines or a section that is "
     "needed, or holds unreadable text where a number is needed or a number "
     "twice or in two pieces, calc_J either "
     "ends with an error and no result, or (when what is missing was not needed) "
     "reports the result of the undamaged files. If only the data that assigns "
     "basis functions to atoms is missing as a whole, the warning about the "
     "order says so.",
     ["inputs", "crash_points"], "every point at which a file can end, every "
     "data line that can be missing",
     "no test reads a damaged file", [LOG, PUN, CJ, QC],
     [("section readers", LOG), ("coefficient reader", PUN)], [CLI],
     "fault injection into generated files, sanitized executions judged against "
     "the undamaged result", "sampled cut points and lines in each section")
prop("C12", "Command lines mean what they say or are refused",
     "Every flag works in both its long and abbreviated spelling, in any order, "
     "with the last of repeated flags deciding, with documented defaults for "
     "flags not given and with or without an explicit value for switches, and "
     "calc_J calculates exactly the selection asked for. An unknown flag, a "
     "missing or disallowed value, a stray word, a file of the wrong kind or "
     "one that does not exist is refused with an error exit and no result.",
     ["inputs", "configurations"], "all argument lists made of documented flags "
     "and of single mistakes", "the parser tests use a few short lists",
     [AP, IO, PA], [("flag table", IO), ("parser", AP)], [CLI],
     "sanitized executions of generated command lines against the reference of "
     "the selection they mean", "random orders, spellings and mistakes")
prop("C13", "Companion files are found beside the file that was given",
     "If for a dimer or monomer only the log file or only the coefficient file "
     "is given, the other one with the same name and directory is used and "
     "reported, also when names or directories hold dots or spaces and when "
     "similarly named files lie nearby. If there is no companion, calc_J ends "
     "with an error and no result; files given explicitly are never replaced by "
     "companions.",
     ["inputs", "configurations"], "all names, directories, extensions and "
     "neighbouring files", "the tests look for one fixed file",
     [PROP + "propertysisterfile.cpp", PROP + "propertyfileext.cpp", IO, PA],
     [("companion search", PROP + "propertysisterfile.cpp")], [CLI],
     "sanitized executions in generated directory trees with decoys, judged by "
     "reported files and result", "random names and decoys; a given file that "
     "does not exist is not judged here")
prop("C14", "Help, version and citation are informative and harmless",
     "Asking for help, version or citation prints that information with success "
     "and without a result; help names every flag in both spellings, version "
     "names the version of the project. Asking for help or the citation "
     "beside a complete calculation leaves the reported results unchanged.",
     ["inputs", "configurations"], "all places and combinations of these flags",
     "no stable test asks for them through the program", [AP, IO, CJ],
     [("information flags", AP)], [CLI],
     "sanitized executions judged by exit status and text",
     "random places and combinations")
prop("C15", "Argument rules accept exactly the values they describe",
     "Rules for integers and floating-point numbers (limits, fully numeric "
     "text), strings (lengths, choices), switches, file extensions, existence of "
     "files and companion files accept every value they describe and refuse "
     "every other one, and report back the settings they were given. Setting an "
     "unknown option is refused.",
     ["inputs", "histories"], "all values, limits, sets and orders of settings",
     "each rule is tested with two to five values", [PROP, ARG],
     [("rules", PROP), ("arguments", ARG)], [API],
     "sanitized executions of the rules against an independent model",
     "random rules and values with boundaries")
prop("C16", "Matrices are values: copies never share their elements",
     "Copying, assigning (also to itself), passing, returning and storing "
     "matrices in containers gives matrices equal to the original in all "
     "dimensions and elements, and changing or destroying one never changes "
     "another. Storage is released exactly once.",
     ["histories", "inputs"], "all sequences of operations on any number of "
     "live matrices", "the tests copy one small matrix", [MX],
     [("copying and assignment", MX)], [API],
     "AddressSanitizer and a model of every live matrix compared after each "
     "operation of random histories", "random histories; releases counted")
prop("C17", "Matrix elements keep their place through every shape change",
     "Constructing a matrix from dimensions, lists or lists of lists, setting and "
     "reading elements, rows and columns, and changing the numbers of rows, "
     "columns or shelves keeps every existing element that still fits at its "
     "place and makes new ones zero. Reading back, counting and printing show "
     "exactly these elements.",
     ["histories", "inputs"], "all dimensions and sequences of shape changes",
     "the tests change the shape of one or two matrices", [MX],
     [("element access", MX), ("shape changes", MX)], [API],
     "sanitized random histories compared with a model after each operation",
     "up to three dimensions, random histories")
prop("C18", "Access outside of a matrix is refused",
     "Reading, writing or pointing to an element, row, column or shelf outside "
     "of a matrix, moving or swapping rows or columns outside of it, a product, "
     "row or column of unfitting length, and dimensions below zero or with more "
     "elements than can be counted end in an orderly refusal: an exception or an error "
     "exit. Memory outside of the matrix is never touched and a caught refusal "
     "leaves the matrix as it was.",
     ["inputs"], "all dimensions and indices",
     "the tests never go outside", [MX], [("bounds checks", MX)], [API],
     "sanitized executions of single operations in processes of their own, "
     "judged by how they end", "indices around and far outside all limits")
prop("C19", "Matrix algebra gives the mathematically right result",
     "Product, transposition (which the library calls inversion), diagonal, "
     "concatenation, and extracting, moving and swapping rows and columns agree "
     "with their definition for all dimensions and elements, products within "
     "rounding and everything else exactly. The operands are left unchanged.",
     ["inputs"], "all dimensions and elements",
     "the tests use 2x2 to 4x4 examples", [MX], [("operators", MX)], [API],
     "sanitized executions against an independent model", "random dimensions "
     "including 1xn and nx1")
prop("C20", "Rows and columns are matched to exactly the decimals asked for",
     "Matching the rows (or columns) of two matrices gives, for each of them, "
     "the number of the entry in the other that equals it in every element when "
     "rounded to the given decimals, and says when there is none. Zero and "
     "negative zero are equal, large values are compared to the same decimals as "
     "small ones.",
     ["inputs"], "all matrices without repeated entries, all numbers of decimals",
     "the tests match one small matrix", [MX], [("matching", MX)], [API],
     "sanitized executions against an independent matching on scaled integers",
     "values near rounding boundaries are excluded")
prop("C21", "Reordering by atoms moves whole blocks of functions and nothing else",
     "Given how atoms correspond and how many functions each has, reordering "
     "the dimer's coefficients moves the columns, and reordering its overlap the "
     "rows and columns, of each atom to the place of its counterpart, for one "
     "list for all atoms and for two lists (one per monomer). Lists that are not "
     "one to one, or do not fit the functions, are refused.",
     ["inputs"], "all permutations, splits and basis sizes",
     "the tests reorder two fixed matrices", [QC],
     [("block swaps", QC)], [API],
     "sanitized executions compared element by element with a model",
     "2 to 24 atoms, random permutations")
prop("C22", "Orbitals of both spins are ranked by energy, none lost",
     "Ranking the orbitals of both spins numbers them from one by rising energy, "
     "each with its energy and spin, all of them exactly once, for any numbers "
     "of orbitals, equal energies and a missing second spin. The energies passed "
     "are not changed.",
     ["inputs"], "all energies and numbers of orbitals",
     "the test ranks eight energies", [QC], [("ranking", QC)], [API],
     "sanitized executions judged by conservation and order", "random energies")
prop("C23", "Runs are repeatable, independent and leave the files alone",
     "Running the same calculation again gives the same report byte for byte, "
     "from any working directory and environment, whatever memory contained "
     "before, and while other runs use the same files. No input file is changed "
     "and no file is created.",
     ["histories", "schedules", "configurations"], "all repetitions, "
     "surroundings and concurrent runs", "each test runs once", [CJ, IO, FR],
     [("driver", CJ)], [CLI], "repeated, concurrent and memory-perturbed "
     "executions compared byte by byte; valgrind for undefined values",
     "random systems; perturbation by allocator filling")
prop("C24", "Text helpers do what they say for every text",
     "Splitting, trimming, finding parts of texts, taking first or last "
     "characters, file names, extensions and directories of paths, and testing "
     "for letters give the documented part for every text, also for empty texts, "
     "repeated and overlapping patterns and bytes outside ASCII. What is absent "
     "is reported as absent. Texts that are numbers as a whole, also those that "
     "Fortran writes, give their value, all others are refused.",
     ["inputs"], "all texts and patterns", "the tests use a few words", [ST],
     [("text helpers", ST)], [API],
     "sanitized executions against models written with plain loops",
     "random texts over ten alphabets")
prop("C25", "Physical symmetries of the coupling hold",
     "Exchanging the monomers exchanges e_a and e_b and keeps the rest; changing "
     "the sign of a monomer orbital changes the sign of J_ab, S_ab and J_eff "
     "only; signs or order of the dimer's orbitals and translation or mirroring "
     "of all geometries change nothing. Scaling a monomer orbital scales J_ab "
     "and S_ab linearly and its site energy quadratically.",
     ["inputs"], "all systems and symmetry operations",
     "no test compares related calculations", [QC, CJ],
     [("projection", QC)], [CLI],
     "metamorphic monitor over pairs of sanitized executions",
     "eight symmetries of random systems")
prop("C26", "Parsers built from flag tables give every flag its own value",
     "A parser built from any set of flags with arguments, rules and defaults "
     "gives each flag the last value on the command line, in long or short "
     "spelling, or its default, without mixing flags up, and its usage names "
     "every flag. Values that break a rule, unknown flags, missing values, "
     "required files that are not given, and impossible definitions are refused.",
     ["inputs", "configurations", "histories"], "all flag tables and command "
     "lines", "the test builds one parser with few flags", [AP, ARG],
     [("flag tables", AP), ("argument classes", ARG)], [API],
     "sanitized executions of random parsers against a model", "random tables "
     "of up to ten flags; lines with one problem are judged by refusal")
prop("C27", "Hostile files and arguments cause no memory errors and no hangs",
     "Whatever bytes the input files hold and whatever the argument list is, "
     "calc_J and the readers end, with a result or an orderly refusal, without "
     "memory errors, undefined arithmetic or the use of undefined values. Each "
     "file and argument is handled in time proportionate to its size.",
     ["inputs", "fault_sequences"], "all file contents and argument lists",
     "the tests only read well-formed files", [LOG, PUN, FR, AP, CJ],
     [("section readers", LOG), ("parser", AP)], [CLI, API],
     "AddressSanitizer, UndefinedBehaviorSanitizer and valgrind over mutated "
     "files, hostile arguments and coverage-guided fuzzing", "sampled; leaks and "
     "memory demand are not judged")
prop("C28", "The report names what was calculated, in full and once",
     "A completed run names the version, the six files used, the spin of the "
     "dimer, the spin and orbital of each monomer (HOMO, LUMO or with its "
     "offset and sign), and then the five quantities with their units, each "
     "once and as asked for on the command line. The warning about the order of "
     "the basis functions is printed exactly when they could not be aligned.",
     ["inputs", "configurations"], "all selections and file names",
     "no stable test looks at the report", [CJ, IO],
     [("report", CJ)], [CLI], "offline checker over the reports of sanitized "
     "executions", "random selections and names")
prop("C29", "Results do not depend on compiler, optimisation or log level",
     "Builds by different compilers, with different optimisation levels, with "
     "assertions off and with any log level report the same results within "
     "rounding and refuse the same inputs. Nothing the calculation needs happens "
     "only in one kind of build.",
     ["configurations", "inputs"], "all builds and systems",
     "the tests run one build", [QC, MX, CJ, L + "log.hpp"],
     [("calculation", QC), ("logging", L + "log.hpp")], [CLI],
     "differential monitor over executions of four to six builds",
     "two compilers, -O0 to -O3, NDEBUG, log level 3")
prop("C30", "The coupling calculated through the library follows the formula",
     "For any monomer and dimer coefficients, energies, overlap and atom order, "
     "the library's transfer calculation gives the effective coupling of the "
     "orbitals chosen relative to HOMO and LUMO, with and without counterpoise, "
     "the same again when repeated, and leaves the matrices it is given "
     "unchanged when no reordering is asked for. Orbitals outside of the "
     "monomers, unknown orbital kinds and matrices that do not fit are refused.",
     ["inputs", "histories"], "all dimensions, orders, orbitals and repetitions",
     "the tests calculate two fixed examples", [QC, MX],
     [("transfer complex", QC)], [API],
     "sanitized executions against an independent reference",
     "denominators near zero are not judged")
prop("C31", "The settings of a calculation hold what they were given",
     "Each of the settings (log and coefficient files, spins, kinds and numbers "
     "of orbitals, counterpoise, citation) reads back as it was last set, "
     "whatever other settings are set and whatever is refused in between. Log "
     "files are taken with the extension .log and coefficient files with .pun, "
     ".orb or .7; other names are refused and leave the setting as it was.",
     ["inputs", "histories"], "all values and sequences of changes",
     "the tests set each value once", [PA],
     [("settings", PA)], [API],
     "sanitized executions against a model of the settings",
     "names that consist of an extension alone are not judged")


prop("C32", "The rules of an argument can be read and hold what they were set to",
     "Every kind of argument (int, double, string, switch, file), on its own or "
     "as the argument of a parser's flag, reports its name, its kinds of rules "
     "and their options. An option reads back as the value it was last set to "
     "(initially its documented default), and setting it changes no other option "
     "of this or any other argument. Unknown rules, options and flags, values of "
     "another type, values of STRING_CHOICE_ENFORCED other than true or false, "
     "malformed extensions of companions and changes to what is found out about "
     "companions are refused, through the argument and the parser alike, and "
     "leave every rule as it was.",
     ["inputs", "histories"], "all sequences of changes on several arguments",
     "the tests set and read one option each", [PROP, ARG, AP],
     [("rules", PROP), ("arguments", ARG), ("parser", AP)], [API],
     "sanitized executions against a model of the rules of several arguments",
     "the lengths of a string cannot be set through an argument and are not "
     "judged there; malformed file extensions are not judged")


prop("C33", "Pieces of work that share nothing do not disturb each other",
     "What a reader, a calculation, a parser, a set of rules, a matrix, a "
     "reordering or a text function yields depends on its own inputs alone: "
     "it is the same in a fresh process, after any other work in the same "
     "process, with other objects of the same kinds alive and used in between, "
     "and with other threads doing unrelated work at the same time. Const "
     "matrices can be read by several threads at once, without a data race.",
     ["inputs", "schedules", "histories"],
     "all mixtures of work and all schedules of threads",
     "each test uses the library once, in one thread",
     [LOG, PUN, QC, PA, MX, AP],
     [("readers", LOG), ("calculation", QC), ("matrices", MX), ("parser", AP)],
     [API],
     "every piece of work is done alone in a process of its own and then after, "
     "between and in threads beside others, under ThreadSanitizer and "
     "AddressSanitizer; the yields are compared",
     "only the schedules that occurred were observed")
prop("C34", "Faults of the system are never turned into results",
     "If a file cannot be opened or read to its end, memory runs out at any "
     "point, or the report cannot be written, calc_J ends with an error exit "
     "and no other result than without the fault; success means that the whole "
     "report was written and is the one without the fault. In the library such "
     "a fault surfaces as an exception or error exit and never as a different "
     "yield; matrices that were not being changed, or whose copying, "
     "assignment, setting or change of dimensions failed, are as before, and "
     "all objects remain usable.",
     ["inputs", "fault_sequences"], "every read, open, allocation and write that can "
     "fail, in every calculation",
     "no test lets anything fail",
     [FR, LOG, PUN, MX, ST, CJ],
     [("reading of files", FR), ("driver", CJ), ("matrices", MX)],
     [CLI, API],
     "fault injection by an interposed library and operator new at random "
     "places of real executions; the outcome is compared to the execution "
     "without the fault",
     "random places of random calculations; one fault or all from some place on")
prop("C35", "Log messages appear in full exactly at the levels compiled in",
     "A message given to LOG appears on the standard output if its level is at "
     "most the LOG_LEVEL the code was compiled with (0 unless defined), and "
     "otherwise leaves no trace. It is one line that names the source file and "
     "line, followed by all the items that were put into the message, in order "
     "and formatted as a stream formats them, in its place among whatever else "
     "is printed, and no item is evaluated twice.",
     ["inputs"], "all messages: number, kind and content of the items, level; "
     "all levels compiled in", "the test logs one message and looks at nothing",
     [L + "log.hpp"], [("log facility", L + "log.hpp")],
     ["standard output"],
     "sanitized executions that log random messages into a file, compared to "
     "the same items formatted by a stream", "twelve shapes of messages, seven "
     "levels compiled in")
prop("C36", "A reader reports what its file held at its last reading",
     "However often it is used, and beside whatever other readers, a reader "
     "reports exactly what a new reader would report of the file as it was when "
     "it was last read: nothing of earlier contents remains, and a refused "
     "reading (file missing, not to be opened, or damaged) is refused every "
     "time and does not spoil the readings after it; a completed reading leaves "
     "no file open. Readers derived for other "
     "formats get each of their sections once, in the order of the file, and are "
     "refused when a section has a header or a reader only.",
     ["inputs", "histories"],
     "all histories of readings, of changes of the files and of refusals; all "
     "formats made of sections that begin with a header",
     "the tests read each file once, with a reader of its own",
     [FR, LOG, PUN], [("reading of files", FR), ("readers", LOG)], [API],
     "sanitized executions of random histories, judged by what a new reader in "
     "a process of its own reports, and of random formats against a model",
     "lines that match the headers of several sections are not generated; what "
     "a reader reports after a refused reading is not judged")

prop("C37", "The work grows in proportion to what is worked on",
     "The work done to read a log or coefficient file grows no faster than the "
     "size of the file, whatever the file is made of and whether it is accepted "
     "or refused; the work of the text helpers and of parsing a command line "
     "grows no faster than the text, that of matrix operations no faster than "
     "the number of elements (the third power of the dimension for a product, "
     "the square of the number of positions for matching), and that of a whole "
     "calculation no faster than the third power of the number of basis "
     "functions.",
     ["inputs"], "all sizes and kinds of contents",
     "the tests read a few small files, and how long they take is not judged",
     [FR, LOG, PUN, MX, L + "string_support.cpp", PA, QC],
     [("reading of files", FR), ("readers", LOG), ("matrices", MX)],
     ["instructions executed, as counted by cachegrind"],
     "instructions of real executions at three sizes, each twice the one before, "
     "counted under cachegrind; the exponent between the growths is judged",
     "sizes from tens of kilobytes to a few megabytes; an exponent may exceed "
     "the promised one by 0.45; memory is not judged")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for d, _, _ in P:
            f.write(json.dumps(d) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3-vt tools/setup.py",
        "hooks": {"guard": "none", "enable": "no hooks are needed: the checks "
                  "observe the unmodified sources built with instrumentation",
                  "source_commits": []},
        "checks": [{
            "property": d["id"],
            "quick_cmd": "python3-vt check.py " + d["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py " + d["id"],
            "evidence_file": "evidence/%s.json" % d["id"],
            "technique": t,
            "level": "exploration",
            "level_note": "every monitored execution agreed with the oracle; " +
                          n + "; trusts the generator, the oracle, the "
                          "compilers and their sanitizers",
        } for d, t, n in P],
        "not_applicable": [],
        "notes": "See DESIGN.md.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
