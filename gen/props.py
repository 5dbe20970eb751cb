#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run it after editing."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, check, technique, note, state=None, observe=None,
         level="model_checking", hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"p": {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
                    "why_tests_cant": why, "anchors": a},
              "c": {"property": id, "quick_cmd": check, "thorough_cmd": check, "technique": technique,
                    "level": level, "level_note": note}})


LANG = "TLA+ operational semantics of the language (spec/lang) interpreted by TLC; random programs replayed in the real machine and compared"
LNOTE = ("TLC executes every generated program in the specification (values, output, errors with positions, yields, exit codes) "
         "and the real compiler and VM must produce exactly the same; bounded by the random programs of the run. "
         "Trusts the program generator's lowering of source text to the statement table, TLC and the harness.")
CFILES = ["core/src/compiler/exprs.rs", "core/src/compiler/top.rs", "core/src/compiler/codegen.rs", "core/src/vm/context.rs",
          "core/src/vm/mod.rs", "core/src/parser.rs", "core/src/lexer.rs"]

prop("A01", "Expressions evaluate to the value their operators and types define",
     "Every well-typed expression evaluates left to right to the value given by operator precedence, the numeric "
     "promotion and narrowing rules and the operators' definitions. An operation that has no result in its type (overflow, "
     "division by zero, bad shift, negative exponent) raises its documented error at its own position, and never "
     "crashes the interpreter or yields a wrong value.",
     ["inputs", "programs"], "all expressions over INTEGER, DOUBLE, STRING and BOOLEAN values, including the boundaries of 32-bit integers",
     "Unit and golden tests cover each operator on a few small values; precedence, conversions, register allocation and "
     "boundary values only interact in nested expressions.",
     CFILES + ["core/src/num.rs"],
     [("precedence climbing parser", "core/src/parser.rs: ExprParser"), ("typed expression compilation", "core/src/compiler/exprs.rs"),
      ("arithmetic upcodes", "core/src/vm/context.rs: do_add_integer and siblings")],
     "python3 gen/lang.py A01", LANG, LNOTE, observe=["console output of PRINT", "Machine::exec error"])
prop("A02", "Control flow runs exactly the statements the program's structure selects",
     "IF, SELECT CASE, WHILE, DO, FOR, EXIT, GOTO, GOSUB, RETURN and END execute the statements that the language's definition selects, "
     "in that order and as many times, whatever the nesting. FOR evaluates its bounds as defined for its step and leaves the "
     "iterator at its documented value.",
     ["programs"], "all nestings of control structures, loop directions and steps, jumps into and out of blocks",
     "Golden tests hold one hand-written program per construct; combinations (EXIT of an outer loop inside SELECT inside GOSUB) are unbounded.",
     CFILES,
     [("statement compilation and label fixups", "core/src/compiler/top.rs"), ("jumps", "core/src/vm/context.rs: do_jump, do_gosub, do_return")],
     "python3 gen/lang.py A02", LANG, LNOTE)
prop("A03", "Callables see only their own variables and the shared ones",
     "A SUB or FUNCTION call binds arguments by value with the declared conversions, starts from default-initialised locals, can "
     "change only shared variables of its caller and returns the last value assigned to its name. Calls may nest and recurse in any expression "
     "position without disturbing partial results or variables of the callers.",
     ["programs"], "all sets of user-defined callables, call graphs (recursive ones included) and calling expressions",
     "Tests exercise a few shallow calls with one or two arguments; clobbered registers only show with particular frame layouts.",
     CFILES + ["core/src/compiler/args.rs", "core/src/compiler/syms.rs", "core/src/callable.rs"],
     [("frames and register banks", "core/src/vm/context.rs: Frame"), ("argument compilation", "core/src/compiler/args.rs")],
     "python3 gen/lang.py A03", LANG, LNOTE)
prop("A04", "Errors reach the active handler and execution resumes where it defines",
     "A runtime error stops the program with its message and position unless a handler is active; ON ERROR GOTO transfers to the label at the top level, "
     "ON ERROR RESUME NEXT continues after the failed statement and ON ERROR GOTO 0 disables both, also when the error happens inside "
     "callables. Statements other than the failing one are never skipped, repeated or half-undone, and the message is what ERRMSG shows.",
     ["programs", "fault_sequences"], "all placements of failing operations and handler changes, across callables and chunks",
     "Tests hold a handful of single-failure programs; where execution resumes depends on the compiled shape around each failing instruction.",
     CFILES, [("error handler state and unwinding", "core/src/vm/mod.rs, core/src/vm/context.rs: set_error_handler and unwinding")],
     "python3 gen/lang.py A04", LANG, LNOTE)
prop("A05", "Arrays and DATA hold exactly what was stored in them",
     "An array element reads back the last value assigned to it and no assignment changes any other element, for every rank and size, and "
     "accesses outside of the bounds raise an error. READ consumes DATA items in source order across the whole program and RESTORE restarts that order.",
     ["programs", "inputs"], "all array types, ranks, dimensions and subscripts; all sequences of DATA, READ and RESTORE",
     "Tests use few subscripts and mostly one or two dimensions; index linearisation errors show only for certain asymmetric shapes.",
     CFILES + ["core/src/mem.rs", "std/src/arrays.rs", "std/src/data.rs"],
     [("heap arrays", "core/src/mem.rs: ArrayData"), ("READ and RESTORE", "std/src/data.rs"), ("LBOUND and UBOUND", "std/src/arrays.rs")],
     "python3 gen/lang.py A05", LANG, LNOTE)
prop("A06", "An interactive session behaves like one growing program",
     "Code fed to a machine in pieces sees every variable, array, callable, label and DATA item of the pieces before it, with the values they had. "
     "A piece that fails to compile, fails at run time or is interrupted leaves the rest of the session usable and unchanged otherwise.",
     ["histories", "programs", "fault_sequences"], "all sequences of chunks, some of which do not compile, fail or are interrupted",
     "Tests feed one program per machine, with few exceptions; state left behind by failing pieces depends on where they fail.",
     CFILES + ["core/src/compiler/mod.rs", "core/src/image.rs", "core/src/compiler/syms.rs", "std/src/lib.rs"],
     [("incremental compilation with rollback", "core/src/compiler/mod.rs"), ("image upgrade", "core/src/image.rs"), ("Machine::compile and exec", "std/src/lib.rs")],
     "python3 gen/lang.py A06", LANG, LNOTE)
prop("A07", "A running program can be interrupted whenever it loops",
     "A program yields to its host at every loop iteration, backward jump, return from a subroutine and re-armed error handler, so that no loop runs forever without noticing a request to stop. An "
     "interruption stops the program there with a Break, leaves variables as the statements executed so far made them, and the machine accepts further code.",
     ["programs", "schedules", "fault_sequences"], "all programs with loops, jumps and calls, and all points at which the interruption arrives",
     "Tests interrupt a couple of programs at one point each.",
     ["std/src/lib.rs", "core/src/vm/mod.rs", "core/src/vm/context.rs", "core/src/compiler/top.rs"],
     [("yielding stop reasons", "core/src/vm/context.rs: InternalStopReason::Yield"), ("signal check in exec", "std/src/lib.rs: Machine::exec")],
     "python3 gen/lang.py A07", LANG + ", once per yield point", LNOTE)
prop("A08", "Ill-formed programs are rejected with the right diagnostic before running",
     "A program with a type error, an undefined or redefined symbol, a wrong argument list, a missing label or a misplaced statement is rejected with a diagnostic that "
     "carries the position of the offending text, and none of it runs. Programs without such errors compile, and no program makes the compiler crash.",
     ["programs"], "all programs, well-formed or with one or more static errors",
     "Tests hold one program per diagnostic; false rejections and missed ones depend on context.",
     CFILES + ["core/src/compiler/args.rs", "core/src/compiler/syms.rs", "core/src/callable.rs"],
     [("typed compilation", "core/src/compiler/top.rs, core/src/compiler/exprs.rs"), ("symbol tables", "core/src/compiler/syms.rs")],
     "python3 gen/lang.py A08", LANG + " (static semantics in spec/lang/Static.tla)", LNOTE)
SHELL = ("TLA+ specification of the interactive shell (spec/shell) interpreted by TLC; random sessions replayed through the real REPL, "
         "commands, editor and drives in a scratch directory and compared")
SNOTE = ("TLC executes every generated session in the specification, checking its invariants and action properties, and the real REPL loop must then "
         "produce the same output, drives, files (through the storage API and on disk) and stored program after every group of input; bounded by the random sessions "
         "of the run. Trusts the lowering of commands to operations, TLC and the harness. Only memory, directory and demo drives.")
SFILES = ["std/src/storage/mod.rs", "std/src/storage/cmds.rs", "std/src/storage/mem.rs", "std/src/storage/fs.rs", "repl/src/demos.rs"]
PFILES = ["std/src/program.rs", "repl/src/lib.rs", "repl/src/editor.rs", "std/src/lib.rs", "std/src/exec.rs"]
prop("A09", "Programs of any size do what their text says or are refused whole",
     "A program within the capacity of the machine (192 variables and partial results per callable, 64 shared variables, 65536 literals, 15 dimensions, 16777216 elements per array, 4096 nested calls, 65535 instructions within reach of "
     "jumps) runs exactly like a small one. One beyond it gets an error at the place that does not fit, before anything runs if that can be told from its text, and the session goes on as if the program had not been there. "
     "Nothing is ever miscompiled, mixed up or crashed because of its size.",
     ["programs", "histories"], "all programs and sessions, around and beyond each capacity and in all combinations of them",
     "The tests compile programs of a few lines: nothing gets close to a limit, where indexes wrap around and registers alias.",
     ["core/src/compiler/syms.rs", "core/src/compiler/codegen.rs", "core/src/compiler/top.rs", "core/src/compiler/args.rs", "core/src/bytecode.rs", "core/src/vm/context.rs", "core/src/mem.rs"],
     [("registers", "core/src/compiler/syms.rs: put_local, put_global, TempScope"), ("literals and jumps", "core/src/compiler/codegen.rs: get_constant, make_target"),
      ("calls and arrays", "core/src/vm/context.rs: push_frame, do_alloc_array")],
     "python3 gen/limits.py", "TLA+ specification of what sessions of programs of any size compute and where they may be refused (spec/limits/Limits.tla); TLC validates the recorded outcome of every generated program as a step of it",
     "Values, errors and their lines are checked for programs whose sizes are around every capacity. Bounded by the programs of the run; partial results are counted up to a slack of three places, the reach of jumps by requiring either the right result or the refusal.",
     observe=["console output", "compiler and runtime errors with positions"])
prop("S01", "Paths and drive commands resolve in one consistent namespace",
     "Drive names are case-insensitive, paths resolve against the current drive unless they name another one, and CD, PWD, MOUNT, UNMOUNT, DIR, COPY, KILL, LOAD and SAVE agree on what a path "
     "means. Malformed paths, drive names and URIs are rejected, a command that fails changes no file and no mount, a command only affects the one file it names, the current drive is always mounted "
     "and cannot be unmounted, and the demos drive never changes.",
     ["histories", "inputs"], "all sequences of storage commands over any set of mounted drives and any path spelling",
     "Tests run each command once on a fixed set of drives; the namespace is a function of the whole history of mounts, copies and deletions.",
     SFILES, [("path parsing and drive lookup", "std/src/storage/mod.rs: Location, DriveKey, Storage"), ("commands", "std/src/storage/cmds.rs")],
     "python3 gen/shell.py S01", SHELL, SNOTE, observe=["console output", "Storage::mounted, enumerate and get", "scratch directory"])
prop("S02", "Directory drives store files faithfully and stay within their directory",
     "What is written to a drive is what is read back and what DIR measures, byte by byte and under the same name, until it is overwritten or deleted. Whatever path is given, a drive mounted on a directory never "
     "reads, creates, changes or deletes anything outside of that directory, nor in its subdirectories.",
     ["histories", "inputs"], "all sequences of SAVE, LOAD, COPY and KILL with any path, including those that try to leave the directory, on drives that may share a directory",
     "Tests check a few malformed names against the path parser; containment depends on every command and drive passing only validated names down.",
     SFILES + ["std/src/program.rs"], [("directory drive", "std/src/storage/fs.rs: DirectoryDrive"), ("path validation", "std/src/storage/mod.rs: Location::new")],
     "python3 gen/shell.py S02", SHELL, SNOTE + " The harness runs as an unprivileged user.", observe=["contents of the scratch directory around the mounted directories"])
prop("P01", "The stored program is never lost or altered unless the user asks",
     "LOAD, NEW and leaving the interpreter ask before discarding unsaved changes and leave the program as it was unless the answer is yes; failing or interrupted commands leave it too. SAVE "
     "writes exactly the text of the program under its name with the default extension, remembers the name and only then considers it unsaved no more; LOAD brings back the lines that the file has.",
     ["histories", "fault_sequences"], "all sequences of EDIT, LOAD, SAVE, NEW, RUN, END, errors, interruptions and answers",
     "Tests cover each command with one answer; whether the program counts as modified, its name and its drive depend on the history.",
     PFILES + ["std/src/storage/mod.rs"], [("confirmation", "std/src/program.rs: continue_if_modified"), ("LOAD, NEW, SAVE", "std/src/program.rs"), ("program buffer", "repl/src/editor.rs: impl Program for Editor"),
             ("leaving the interpreter", "repl/src/lib.rs: run_repl_loop")],
     "python3 gen/shell.py P01", SHELL, SNOTE, observe=["Program::text, name and is_dirty", "console output", "files"])
prop("P02", "RUN, CLEAR, NEW and LOAD reset the machine and nothing else does",
     "Running the stored program starts from a machine without variables, error handler or last error, and its variables can be inspected afterwards, while its error handler does not outlive it; CLEAR, NEW and LOAD empty the machine and "
     "drop the rest of the line. Any other command, failing ones included, leaves variables, handler and last error as the statements that ran made them. END leaves the interpreter with its code only "
     "when typed by the user, and AUTOEXEC.BAS runs like typed input.",
     ["histories", "programs"], "all interleavings of interpreter lines, errors, error handlers, stored programs and the commands that clear the machine",
     "Tests cover one transition each; leaks of state only show after particular sequences.",
     ["std/src/lib.rs", "std/src/exec.rs", "std/src/program.rs", "repl/src/lib.rs", "core/src/vm/mod.rs"],
     [("deferred actions", "std/src/lib.rs: Machine::drain_actions, clear, run"), ("REPL loop and AUTOEXEC", "repl/src/lib.rs")],
     "python3 gen/shell.py P02", SHELL, SNOTE, observe=["console output of PRINT and ERRMSG", "exit code of run_repl_loop"])
CON = ("TLA+ specification of the text console, the line reader and the program editor (spec/console) interpreted by TLC; operation and key sequences (random ones, and all "
       "short ones over small alphabets) replayed through the real graphical console, line reader, BASIC console commands and editor on a simulated LCD, and every cell of every frame compared")
CNOTE = ("TLC executes every generated sequence in the specification, checking its invariants and action properties; the frames that the simulated LCD received must decode, with a font of the harness, to exactly "
         "the specified characters and colors. Bounded by the sequences of the run and screens of a few cells. Trusts the harness's font and LCD, and TLC. The VT100 console of terminals is not "
         "covered by this property.")
CONFILES = ["std/src/console/graphics.rs", "std/src/console/readline.rs", "std/src/console/cmds.rs", "std/src/gfx/lcd/buffered/mod.rs", "repl/src/editor.rs"]
prop("C01", "The line reader edits, remembers and shows exactly the line that the user types",
     "Whatever keys are pressed, the line read is the result of applying their documented effects in order; the screen always shows the prompt and the part of the line around the cursor, leaving nothing of "
     "earlier contents behind and nothing outside of its row; secure input only shows asterisks. History gets the accepted lines, in order, and going through it changes none of them.",
     ["histories", "inputs"], "all key sequences, prompts, initial texts, histories and widths of the screen, also when the line is wider than the screen",
     "Tests check some twenty sequences on a mock console and not what the screen looks like; wrong columns only show with particular lengths, positions and margins.",
     CONFILES, [("line reader", "std/src/console/readline.rs: read_line_interactive"), ("line updates", "std/src/console/readline.rs: update_line")],
     "python3 gen/console.py C01", CON, CNOTE, observe=["frames sent to the LCD", "line returned by read_line", "history"])
prop("C02", "The program editor changes and shows exactly the text that the keys define",
     "Whatever keys are pressed in EDIT, the text of the program is the result of applying their documented effects in order, no other line changes, and the screen always shows the lines around the cursor, the status line and the cursor at "
     "the insertion point. The program counts as modified exactly if a key changed it. Leaving the editor brings back the screen as it was.",
     ["histories", "inputs"], "all programs, key sequences and screen sizes",
     "Tests check the escape sequences of some forty scenarios on a fixed screen; the viewport is a function of the whole history of the cursor.",
     CONFILES, [("editor", "repl/src/editor.rs: Editor::edit_interactively"), ("rendering", "repl/src/editor.rs: refresh, refresh_status")],
     "python3 gen/console.py C02", CON, CNOTE, observe=["frames sent to the LCD", "Program::text and is_dirty"])
prop("C03", "The screen shows exactly what was written and the cursor at its position",
     "Writing, clearing, moving, locating and coloring text, by programs or by the interpreter, affect exactly the cells they name; long lines wrap and the screen scrolls at the bottom; the cursor is visible at the insertion point, and only there, unless hidden. "
     "The alternate screen leaves the main one intact. With video syncing disabled the screen changes only when asked to, and then shows all that was written.",
     ["histories"], "all sequences of console operations and BASIC console statements on any size of the screen",
     "Tests check the drawing calls of single operations; stale cursors, colors and damaged areas only show after particular sequences.",
     CONFILES, [("cursor, scrolling and syncing", "std/src/console/graphics.rs: GraphicsConsole"), ("damage tracking", "std/src/gfx/lcd/buffered/mod.rs: BufferedLcd"),
                ("CLS, COLOR, LOCATE, PRINT, INPUT, INKEY", "std/src/console/cmds.rs")],
     "python3 gen/console.py C03", CON, CNOTE, observe=["frames sent to the LCD", "errors of the operations"])
prop("G01", "Drawing paints exactly the visible pixels of each shape, in its color",
     "Lines, rectangles, circles, triangles, polygons and fills paint with the foreground color exactly the pixels of their shape that are on the screen, wherever their coordinates are, and no other; what is peeked is what was painted. "
     "Text and graphics share one screen. With video syncing disabled nothing shows until synced, and then everything does. Invalid arguments are reported at their position and paint nothing.",
     ["inputs", "histories"], "all shapes with any 16-bit coordinates, colors and screen sizes, and all sequences of drawing, text and syncing operations",
     "Tests draw a few dozen shapes of convenient sizes; clipping, ties, degenerate shapes, arithmetic limits and damaged areas depend on coordinates and history.",
     ["std/src/console/drawing.rs", "std/src/console/graphics.rs", "std/src/gfx/lcd/buffered/mod.rs", "std/src/gfx/mod.rs", "std/src/console/colors.rs"],
     [("drawing algorithms", "std/src/console/drawing.rs"), ("clipping and damage", "std/src/gfx/lcd/buffered/mod.rs"), ("commands", "std/src/gfx/mod.rs")],
     "python3 gen/gfx.py", "TLA+ specification of drawing as predicates over pixels (spec/gfx) interpreted by TLC; random drawing sessions and all small shapes replayed through the real console on a simulated LCD, comparing every pixel",
     "TLC evaluates each shape on each pixel of small screens and checks its invariants; the framebuffer of the simulated LCD must be equal after each operation. Bounded by the shapes of the run. The cursor is hidden while drawing. "
     "Only consoles that draw in software (LCDs and SDL share the algorithms).", observe=["framebuffer of the LCD", "GFX_PEEK", "errors"])
CLOUD = ("TLA+ specification of the cloud client along with the service (spec/cloud) interpreted by TLC; random sessions with faulty networks replayed through the real commands and HTTP client "
         "against a scripted server, comparing every request, message and file")
CLNOTE = ("TLC runs every session in the specification, which decides the replies of the service, and checks its invariants and action properties; the real client must send the same requests and report the same. Bounded by the sessions of the "
          "run. The service is the one of the specification, not the real one. Names in ACLs are ASCII and no user is called . or .. .")
CLFILES = ["client/src/cmds.rs", "client/src/cloud.rs", "client/src/drive.rs", "client/src/lib.rs"]
prop("R01", "Requests to the service act for exactly the user who is logged in",
     "Exactly a successful LOGIN starts a session and exactly a successful LOGOUT ends it; every request carries the credentials of the session at that time and no others, and passwords only travel in LOGIN and SIGNUP. SHARE grants and revokes exactly "
     "the readers it is given. SIGNUP sends exactly the confirmed answers, and nothing unless confirmed. Requests that fail, get lost or get bad replies are reported and leave the session as it was.",
     ["histories", "fault_sequences", "inputs"], "all sequences of account, sharing and drive commands and all failures of their requests",
     "The tests of the HTTP client need a live service and are ignored; those of the commands use canned replies of a mock for a few sequences.",
     CLFILES, [("session and credentials", "client/src/cloud.rs: CloudService"), ("LOGIN, LOGOUT, SHARE, SIGNUP", "client/src/cmds.rs")],
     "python3 gen/cloud.py R01", CLOUD, CLNOTE, observe=["HTTP requests", "console output", "mounted drives"])
prop("R02", "Files in the cloud are read and written exactly as named and with their bytes",
     "Reading, writing, listing, copying, deleting and auto-running files of cloud drives affect exactly the file of the given name of the user whose drive it is, whatever characters the name has, and transfer its contents byte by byte. "
     "What the service rejects, or does not confirm, is reported as an error with the reason and never as a success or as contents.",
     ["histories", "fault_sequences", "inputs"], "all sequences of file commands on local and cloud drives, names, contents and failures of the requests",
     "The tests of the HTTP client need a live service and are ignored; names with special characters and lost replies are not tried.",
     CLFILES + ["repl/src/lib.rs", "std/src/storage/cmds.rs"],
     [("HTTP client", "client/src/cloud.rs: CloudService"), ("drive", "client/src/drive.rs: CloudDrive"), ("auto-run", "repl/src/lib.rs: run_from_cloud")],
     "python3 gen/cloud.py R02", CLOUD, CLNOTE, observe=["HTTP requests", "results of commands", "program loaded"])
LIB = "Random sessions with nested calls of all functions and commands of the area run through the TLA+ specification in TLC, which computes every result, error and request to a device; the real machine runs the same text over recording devices and must agree"
LIBNOTE = "4000 sessions of 6 to 21 statements (about 50,000 statements); doubles of up to 29 bits, approximate functions at tabulated points, some characters of each kind"
prop("N01", "Functions of numbers, text and chance compute what they promise for all values",
     "Functions of text count and cut characters, whatever bytes they take, and never fall out of them; functions of numbers round, truncate, convert and compare as documented, in radians or degrees as last chosen; numbers in text are read as far as they go. "
     "Arguments outside of the domain of a function are errors at the argument. Random numbers are between 0 and 1, differ, and the same seed always gives the same sequence, which RND(0) repeats and negative numbers restart.",
     ["inputs", "programs"], "all nested calls of the functions in std/src/numerics.rs and std/src/strings.rs, all arguments, and all sequences of the commands that affect them",
     "The tests try each function with a few ASCII texts and small numbers; infinite numbers, extreme numbers of decimals or wide characters are not tried, nor sequences of seeds.",
     ["std/src/numerics.rs", "std/src/strings.rs"],
     [("numbers", "std/src/numerics.rs: RoundFunction, IntFunction, Prng"), ("text", "std/src/strings.rs: MidFunction, InstrFunction, parse_numeric_prefix")],
     "python3 gen/lib.py N01", LIB, LIBNOTE, observe=["printed values", "errors"])
prop("H01", "Clock, speaker and pin commands ask devices exactly what the program says",
     "SLEEP, SOUND, BEEP and the GPIO commands validate their arguments and then ask the device exactly once for what was given: the pin, mode, level, pitch and duration; otherwise they ask nothing and fail at the wrong argument. "
     "Failures of the device are errors at the command, Break interrupts waiting, CLEAR resets the pins, the clock goes with the time, and mock pins return what was injected, in order, and trace every operation.",
     ["histories", "fault_sequences", "inputs"], "all sequences of device commands, arguments, backends of the pins, replies and failures of the devices, and interruptions",
     "The tests run each command alone against mocks that never fail; failures of a device, interruptions, too long waits and extreme arguments are not tried.",
     ["std/src/gpio/mod.rs", "std/src/gpio/fakes.rs", "std/src/datetime.rs", "std/src/sound/cmds.rs", "std/src/lib.rs"],
     [("pins", "std/src/gpio/mod.rs: GpioSetupCommand, parse_pin"), ("clock", "std/src/datetime.rs: SleepCommand"), ("speaker", "std/src/sound/cmds.rs: SoundCommand")],
     "python3 gen/lib.py H01", LIB, LIBNOTE, observe=["requests to devices", "printed values", "errors"])
prop("D01", "The LCD panel shows what was drawn and its buttons are read as keys",
     "Whatever a session writes and draws, and however the bus splits its transfers, the controller of the panel ends up with exactly the pixels of the canvas, in the closest colors it has, after having been reset, set up, woken up and lit in an order and at a "
     "pace it accepts. Buttons that are pressed are read as their keys along with those typed. A transfer that fails is an error of the operation that needed it, and the console keeps working. Invalid specifications of the console are errors. The light goes off at the end.",
     ["histories", "fault_sequences", "configurations"], "all sequences of console operations, specifications of the console, sizes of transfers, states of the buttons and failures of the bus",
     "The tests of the driver check a handful of transfers of a few pixels; windows, orders of bytes, partial writes and failures depend on the history.",
     ["st7735s/src/lib.rs", "std/src/console/spec.rs", "std/src/gfx/lcd/mod.rs", "std/src/gfx/lcd/buffered/mod.rs", "std/src/spi.rs"],
     [("driver of the panel and its buttons", "st7735s/src/lib.rs: ST7735SLcd, ST7735SInput"), ("damaged areas", "std/src/gfx/lcd/buffered/mod.rs"), ("console specifications", "std/src/console/spec.rs: ConsoleSpec")],
     "python3 gen/hw.py D01", "TLA+ specification of the canvas and of the controller of the panel (spec/hw/Panel.tla); traces of the bus and pins recorded from the real driver are validated by TLC, pixel by pixel",
     "Bus and pins are simulated and record what the driver did; TLC runs the controller on it and checks it against the canvas after each operation. Bounded by the sessions of the run; the cursor is hidden while drawing.",
     observe=["SPI transfers", "pin modes and levels", "keys read", "errors"])
prop("T01", "A text terminal shows what was asked for and its keys are read as typed",
     "After every operation of the console, the terminal shows the text, colors, cursor and screen that the operations so far ask for, whatever characters are written; without syncing, once synced. Every key typed is read as the key it is, in order, and Ctrl+C also asks "
     "to stop. Input that is not from a terminal is read to its end. The size of the screen is the one of the terminal or environment. The terminal is left as it was found.",
     ["histories", "inputs"], "all sequences of console operations and typed keys, on terminals and pipes of all sizes",
     "The tests of the terminal check the mapping of a few keys; nothing tests what the escape sequences show.",
     ["terminal/src/lib.rs", "std/src/console/mod.rs"],
     [("output and modes", "terminal/src/lib.rs: TerminalConsole"), ("keys", "terminal/src/lib.rs: raw_key_handler, stdio_key_handler")],
     "python3 gen/term.py T01", "TLA+ specification of the screen and of a terminal emulator (spec/hw/Term.tla); traces of what the real console writes on pseudo terminals are validated by TLC, cell by cell",
     "TLC interprets the recorded output as a terminal would and checks it against the screen after each operation. Bounded by the sessions of the run; characters are one column wide.",
     observe=["bytes written to the terminal", "keys read", "modes of the terminal"])
prop("M01", "The command line runs what it is asked to and reports how it ended",
     "Any arguments are either a mistake, reported with code 2 before anything runs or any file changes, or select one mode whose outputs, exit code and files follow from the script, the input and the directories: scripts never touch the drives, files saved by one "
     "invocation are there for the next one, flags win over what scripts ask for, AUTOEXEC.BAS runs before the prompt, errors carry positions and yield 1, END yields its code and Ctrl+C 130.",
     ["inputs", "programs", "histories", "configurations"], "all sequences of invocations, with any arguments, scripts, input and contents of the drives",
     "The integration tests run a few scripts and sessions, mostly without flags, each in a process of its own.",
     ["cli/src/lib.rs", "cli/src/main.rs", "cli/src/propline.rs", "cli/src/console.rs", "cli/src/gpio.rs", "cli/src/storage.rs", "repl/src/lib.rs"],
     [("modes", "cli/src/lib.rs: AppMode, run_script, run_interactive, run_repl_loop"), ("AUTOEXEC, cloud programs and prompt", "repl/src/lib.rs: try_load_autoexec, run_from_cloud, run_repl_loop")],
     "python3 gen/cli.py M01", "TLA+ specification of an invocation, phase by phase and statement by statement (spec/cli/Cli.tla); TLC runs it for generated scenarios and the real program is run on the same ones",
     "Outputs, exit codes and directories of every invocation are compared with the behaviours of the specification. Bounded by the scenarios of the run and the statements that the specification knows; default features only.",
     observe=["standard output and error", "exit code", "files and directories"])
#MORE


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x["p"]) + "\n")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 gen/setup.py",
                   "hooks": {"guard": "none", "enable": "no hooks: the checks use only public interfaces", "source_commits": []},
                   "checks": [x["c"] for x in P], "not_applicable": NA}, f, indent=1)
        f.write("\n")


main()
