TC = ['include/try_catch.h', 'libcommon/src/try_catch.c']
p('C18', 'An exception reaches the innermost handler around, with code and message',
  'An exception thrown anywhere inside nested try blocks runs the handler of the innermost block around the throw, which sees the code thrown and the message given with it (cut to the 1023 characters kept). A rethrow goes on to the next block out. After a block, however it ends, exactly the handlers around it are in force, and a block that ends well leaves nothing pending.',
  ['inputs', 'histories'], 'every nesting of up to 3 blocks (thorough 4), every way each of them ends, every code and message',
  NOTEST + 'the control flow is setjmp/longjmp: which handler is in force depends on the whole history of blocks entered and left.',
  TC, [('__try/__catch/__throw/__throw_msg/__rethrow/__nothrow', 'include/try_catch.h'), ('g_pExceptionHandlers, message buffer', 'libcommon/src/try_catch.c')], ['getExceptionCode/getExceptionMessage', 'g_pExceptionHandlers'])
p('C19', 'A command line is accepted exactly when well formed, and does what it says',
  'A command line with one image (--elf file, or --bin file address), one --dump and any --alias options, in any order and letter case, with numbers as C writes them, loads what it names: the image read-only at its place, registers and memory of the dump, aliases, and prints nothing. The kind of dump is told by its first bytes. Anything incomplete or not understood is refused with the matching exception, an error text, the copyright notice and the usage, and leaves no memory or open file.',
  I, 'every option order and letter case, every number in three notations, every list of up to 4 known words, every word of 5 or 6 characters in place of another, free image and dump contents',
  NOTEST + 'option orders, number notations and malformed lists multiply.',
  [CL, 'include/CrashDebugCommandLine.h'], [('CrashDebugCommandLine_Init / parseArguments', CL), ('getFileType', CL), ('loadDumpFile / loadImageFile / createAliases', CL)], ['exception code', 'stderr text', 'memory and registers'])
p('C20', 'A failing file or allocation stops loading, is explained and leaves nothing',
  'When any single file operation (open, seek, tell, read) or any allocation made while the command line is processed fails, processing ends with a file exception (a read that fails inside a dump: a file or file format exception) or an out-of-memory exception, the failure is explained on stderr, every file is closed and no memory is left. Nothing half loaded is handed to the debugger.',
  F, 'every file operation failing once; every allocation failing once or from there on; image and dump of each kind',
  NOTEST + 'each of the hundreds of calls is its own fault point with its own cleanup.',
  [CL, CC, GL, EL, 'libcommon/src/common.c'], [('cleanup on exceptions', CL), ('destructObject', CC)], ['exception code', 'allocator and file accounting'])
p('C21', 'GDB gets and sets exactly the registers of the dump',
  'A register packet holds, in the order of the target description and little endian, R0-R12, SP, LR, PC, XPSR, MSP, PSP and, exactly when the dump has them, the 33 floating point registers; taking such a packet sets exactly these. A stop reply holds R12, SP, LR and PC with their register numbers. Nothing else of the context changes.',
  I, 'every value of every register and every flag word',
  NOTEST + 'a swapped byte or register shows only for values in which they differ.',
  [MP], [('Platform_CopyContextToBuffer / Platform_CopyContextFromBuffer', MP), ('Platform_WriteTResponseRegistersToBuffer', MP)], ['packet bytes'])
p('C22', 'Debugger memory accesses never escape and report their faults',
  'A debugger memory access of 8, 16 or 32 bits acts on the simulated memory of the dump; where that is not possible it raises nothing, changes nothing, reads as zero and sets the memory fault indication. The indication is given once, exactly when an access failed since it was last asked for, and is clear after starting anew.',
  ['inputs', 'histories'], 'every region, address, width, value; up to 2 accesses (thorough 3) with the question asked or not in between',
  NOTEST + 'the indication depends on the history of accesses, the outcome on every address.',
  [MP, MS], [('Platform_MemRead*/Platform_MemWrite*', MP), ('Platform_WasMemoryFaultEncountered', MP)], ['value returned', 'fault indication'])
p('C23', 'The fault is reported as the dump recorded it',
  'The signal reported follows the exception number (low 9 bits of the exception PSR) of the dump. For hard, memory, bus and usage faults the text shows the status register value and names exactly the causes whose bits are set in the fault status registers of the dump, shows a fault address exactly when it is marked valid, and goes through the configurable faults when a hard fault was forced by one. Fault registers missing from the dump count as zero; nothing is changed.',
  I, 'every exception PSR; for each fault every value of the status and address registers, each present in the dump or not',
  NOTEST + 'every combination of cause bits is a different text.',
  [MP], [('Platform_DetermineCauseOfException', MP), ('Platform_DisplayFaultCauseToGdbConsole and display*FaultCause', MP)], ['signal', 'console text'])
p('C24', 'GDB is told exactly the registers and memory there are',
  'The target description is a complete XML text of the size given that names the registers in packet order with right sizes and numbers (XPSR 25, MSP 26, PSP 27), with the floating point registers exactly when the dump has them, so that it describes the register packet bit for bit. The memory map given to GDB, and its size, are those of the simulated memory.',
  I, 'every flag word; every memory map of one region', NOTEST + 'packet, description and flag have to agree for every dump.',
  [MP], [('Platform_GetTargetXml/Platform_GetTargetXmlSize', MP), ('Platform_GetDeviceMemoryMapXml/Size', MP)], ['text'])
p('C25', 'Requests to run, step or stop never change the dump',
  'Nothing GDB asks other than writing registers or memory changes the dump: single stepping, continuing, setting the program counter on resume, break- and watchpoints and semihosting are quietly ignored and never reported as done. Characters go to and come from the link given, whose results and failures are passed on, and the debugger is entered again until the link says stop.',
  ['inputs', 'histories'], 'every 2 (thorough 3) of 22 requests with any arguments, any registers and memory',
  NOTEST + 'requests may come in any order with any arguments.',
  [MP], [('Platform_* stubs', MP), ('mriPlatform_Run', MP)], ['register context', 'memory'])
p('C26', 'The stdin/stdout link passes every byte and notices its end',
  'Each byte sent is written once to standard output; each byte received is the next one of standard input. End or failure of the input, and failure of the output, are file exceptions; pending input is reported exactly when there is some, without waiting, a failing poll counting as none. GDB counts as connected once it has sent something.',
  ['inputs', 'fault_sequences'], 'every sequence of 3 (thorough 5) operations with every result of select, read and write, every byte',
  NOTEST + 'end of input and failures do not occur in them.',
  [SI, 'main/MockDefaults.c'], [('hasReceiveData, receiveChar, sendChar, isGdbConnected', SI), ('Console_*', 'main/MockDefaults.c')], ['system calls'])
p('C27', 'The size of a file is measured right, or the failure reported',
  'Measuring a file returns the position of its end and leaves the file at its start, for every size and starting position; when any of the operations fails a file exception is raised.',
  F, 'every size and position, every failing operation', NOTEST + 'each seek may fail.',
  ['libcommon/src/common.c'], [('GetFileSize', 'libcommon/src/common.c')], ['return value', 'file position'])
p('C28', 'Failure injectors fail exactly the calls asked for',
  'After an injection is set, exactly the calls asked for (after the asked-for number of passes, for the asked-for number of failures) return the asked-for value without reaching the C library; all others, and all after a restore, reach it once with their arguments and return its result. Injected fgets data comes line by line, cut and terminated as fgets does within the size given.',
  ['inputs', 'histories'], 'sequences of 4 to 6 calls of each family, every return value, up to 3 passes and failures, lines of free characters',
  'The injector tests count a few calls of malloc and realloc; not the file functions, nor arguments, nor sequences of sets and restores.',
  [FF, MF], [('mock_* functions with their counters', FF), ('mock_malloc, mock_realloc, mock_free', MF)], ['C library calls', 'return values'])
p('C29', 'The print spy keeps the last outputs as written',
  'With the spy hooked and one stream in use, every output is counted, returns its length and the last (up to four) texts are kept, each cut to the buffer size asked for and terminated, with no text where nothing was written. Unhooking gives the C library functions back, forgets the texts and frees the buffers; hooking starts anew.',
  ['inputs', 'histories'], '0 to 5 (thorough 9) outputs to one stream, buffer sizes 0 to 4, any text',
  'The spy tests use fixed texts and at most four outputs: neither wrapping around nor hooking again is reached.',
  [PS], [('mock_common, printfSpy_Hook/Unhook, printfSpy_Get*', PS)], ['texts returned'])
p('C30', 'The program ends every session cleanly and says why it failed',
  'A correct start shows the debugger exactly the registers and memory of the files, prints nothing of its own, answers on stdout only what the debugger sends and, when the input ends or the output fails, ends silently with a non-zero status. A bad command line or a failure while loading starts no session, is explained on stderr and gives a non-zero status; other errors are named by number. In every case all files are closed and all memory is freed.',
  F, 'image and dump of each kind with free contents, free input, every failing file operation and allocation, every exception the debugger may raise',
  NOTEST + 'main() is not part of any test.',
  ['main/main.c', CL, MP, SI], [('main', 'main/main.c')], ['exit status', 'stdout/stderr', 'allocator and file accounting'])
p('C31', 'What is loaded does not depend on what was loaded before',
  'Loading the same files again, after other files were loaded, used by the debugger and discarded, or after a load that failed, gives the same registers, memory, memory map, target description and cause of the stop as before: no region, alias, watchpoint, hit, count, fault indication or value of the load in between is left.',
  ['inputs', 'histories', 'fault_sequences'], 'free contents of both sets of files, the load in between complete, cut short anywhere or failing at any file operation or allocation',
  NOTEST + 'the memory simulation, the debugger link and the parsers keep static state, which shows only with a second load in one process.',
  [CL, MS, MP, GL, CC], [('CrashDebugCommandLine_Init/Uninit', CL), ('MemorySim_Init/Uninit (g_object)', MS), ('mriPlatform_Init', MP)], ['registers', 'memory', 'memory map', 'fault and watchpoint indications'])
