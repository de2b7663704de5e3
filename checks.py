from vf import Job
CHECKS = {}
MEM = ['core', 'mem.c', 'env.c', 'hooks.c']
LIBC = 'C library (malloc, string, ctype, strtoul, snprintf, setjmp) replaced by engine/rt.c and engine intrinsics; sampled paths are rerun natively against glibc'
ENV = 'allocator and stdio hooks point at harness/env.c (in-memory files, allocation and I/O accounting)'
SHIM = 'headers of the absent mri and CrashCatcher submodules come from /verif/shim'


def J(h, **d):
    o = {k: d.pop(k) for k in list(d) if k.islower()}
    return Job(h, d, o.pop('srcs', MEM), **o)


def prop(pid, quick, bounds, outside, more=(), stubs=()):
    CHECKS[pid] = dict(jobs=lambda t: quick() + (list(more()) if more and t == 'thorough' else []), bounds=bounds, outside=outside,
                       stubs=[LIBC, ENV, SHIM] + list(stubs))


prop('C01', lambda: [J('mem_ops.c', NREG=1, OPS=2), J('mem_ops.c', NREG=1, OPS=1, IMG=9, KINDS=2), J('mem_ops.c', NREG=2, OPS=1), J('scale.c', KIND=1, steps=400000000)],
     'regions of any base and any size below 64 KB; 1 region with 2 accesses, 2 (possibly overlapping) regions with 1 access, then one checked read; reads, writes of 8/16/32 bits and host mappings up to 64 KB; an image of 1 to 9 bytes at any address of a region; one write and read of any width at 25 places of a region of 70000 bytes',
     'longer sequences of accesses, more regions, free sizes of 64 KB and more',
     lambda: [J('mem_ops.c', NREG=1, OPS=3, time=850), J('mem_ops.c', NREG=3, OPS=1, KINDS=2, time=850)])
prop('C02', lambda: [J('c02.c', NREG=1), J('c02.c', NREG=2), J('c02.c', NREG=3)],
     '1 to 3 regions of any base and size 0 to 16, one access of any kind at any address, host mappings of any 32-bit length',
     'more than three regions; larger regions (the comparisons do not depend on the size)',
     lambda: [J('c02.c', NREG=4, time=850), J('c02.c', NREG=2, MAXSIZE=4096, time=850)])
prop('C03', lambda: [J('mem_ops.c', NREG=1, OPS=1, RO=2), J('mem_ops.c', NREG=2, OPS=1, RO=1), J('scale.c', KIND=1, steps=400000000)],
     '1 or 2 (possibly overlapping) regions of any base and any size below 64 KB, any address made read-only (once or twice), then one access of any kind and a checked read of any kind; a region of 70000 bytes made read-only',
     'more regions and accesses, free sizes of 64 KB and more',
     lambda: [J('mem_ops.c', NREG=1, OPS=2, RO=1, time=850), J('mem_ops.c', NREG=2, OPS=1, RO=2, time=850), J('mem_ops.c', NREG=3, OPS=1, RO=1, KINDS=2, time=850)])
prop('C04', lambda: [J('mem_ops.c', NREG=1, OPS=0, NALIAS=2), J('mem_ops.c', NREG=1, OPS=1, NALIAS=1, KINDS=1), J('mem_ops.c', NREG=2, OPS=0, NALIAS=1), J('mem_ops.c', NREG=1, OPS=1, NALIAS=1, RO=1, KINDS=1, FINAL=0), J('scale.c', KIND=1, steps=400000000)],
     'regions of any base and any size below 64 KB; one alias of any address and size over 1 or 2 regions, 2 aliases (also of each other) over one region; then up to one write (also to a read-only target) and a checked read through any entry of the map; an alias of a region of 70000 bytes, also from the middle of it',
     'more than two aliases, longer access sequences',
     lambda: [J('mem_ops.c', NREG=1, OPS=1, NALIAS=1, RO=1, time=850), J('mem_ops.c', NREG=2, OPS=1, NALIAS=1, KINDS=2, time=850)])
prop('C05', lambda: [J('alloc.c', OP=i, MAXFAIL=5 if i == 5 else 2) for i in range(7)],
     'a region of any base and size below 64 KB, then one operation (create region, alias, read-only request, memory map text, watchpoint, regions from an 8-byte flash image, breakpoint) with any one of its first allocations failing, or all from that one on; probed at any address with any width',
     'several operations in a row; failures of later allocations than the third (flash regions: sixth)',
     lambda: [J('alloc.c', OP=i, MAXFAIL=5, covers_optional=['nothing failed'], time=850) for i in range(7)])
prop('C06', lambda: [J('xml.c', NREG=1), J('xml.c', NREG=2), J('xml.c', NREG=1, BIG=1), J('xml.c', NREG=4, SPREAD=1, NRO=4), J('xml.c', NREG=2, SPREAD=1, NALIAS=1), J('scale.c', KIND=4, steps=400000000)],
     'empty maps, up to 2 entries of any base and sizes below 1 MB (one entry also of eight-digit size), 4 entries with any subset read-only, 2 regions and an alias; the text asked for once or twice; up to 300 regions of fixed place and size',
     'more than four entries; region sizes between 2^20 and 2^28',
     lambda: [J('xml.c', NREG=3, time=850), J('xml.c', NREG=5, SPREAD=1, NRO=5, time=850)])
prop('C07', lambda: [J('watch.c', NSET=1), J('watch.c', NSET=1, TOP=1), J('watch.c', NSET=2, BASES=1, MAPPED=1, SMALL=1), J('watch.c', NSET=3, BASES=1, MAPPED=1, TYPE=3, SMALL=1), J('watch.c', NSET=1, NALIAS=1, BASES=1, MAPPED=1, SMALL=1), J('watch.c', NSET=1, NREG=2, SMALL=1), J('scale.c', KIND=3, steps=400000000)],
     '1 request over any region; 2 requests of any kind, 3 watchpoint requests over a region at 0x20000000+[0,255], sizes below 256; 1 request with an alias or over 2 regions; a region that ends at 2^32; then one access of any width and direction; 26 watchpoints at fixed places set in 4 orders, some cleared, one access at any place of the region',
     'more requests; for 2 and more requests: unmapped requests and accesses',
     lambda: [J('watch.c', NSET=3, BASES=1, MAPPED=1, SMALL=1, time=850), J('watch.c', NSET=2, SMALL=1, time=850), J('watch.c', NSET=4, BASES=1, MAPPED=1, TYPE=1, SMALL=1, time=850)])
prop('C08', lambda: [J('counts.c', NREAD=1), J('counts.c', NREAD=2), J('counts.c', NREAD=1, NALIAS=1), J('counts.c', NREAD=1, BOTH=1), J('scale.c', KIND=2, steps=400000000)],
     'two regions of any base and size below 64 KB, one or both read-only, 1 or 2 accesses of any kind and width (1 with an alias), the count asked at any address; up to 65538 reads of one halfword',
     'longer access sequences; host mappings of two bytes (they count as a read)',
     lambda: [J('counts.c', NREAD=3, SMALL=1, time=850), J('counts.c', NREAD=2, NALIAS=1, SMALL=1, time=850)])
prop('C09', lambda: [J('elf.c', MODE=3), J('elf.c', MODE=3, NPH=2, SEG=3, SMALL=1), J('elf.c', MODE=4, NPH=1, DATA=24, SMALL=1), J('elf.c', MODE=4, NPH=2, DATA=6, ENT=40, SMALL=1), J('scale.c', KIND=7, steps=400000000)],
     '1 header with all fields free (segments of up to 5 bytes), 2 headers (3 bytes), segments up to 23 bytes, 2 headers of 40-byte entries; load addresses up to 2^32; 300 program headers, one of a segment of 70000 bytes',
     'more than 2 program headers, longer segments, overlapping segments, segments that wrap the address space',
     lambda: [J('elf.c', MODE=3, NPH=2, time=850), J('elf.c', MODE=3, NPH=3, SEG=2, SMALL=1, time=850), J('elf.c', MODE=4, NPH=2, DATA=10, SMALL=1, time=850)])
prop('C10', lambda: [J('scale.c', KIND=10, steps=5000000), J('elf.c', MODE=1), J('elf.c', MODE=0), J('elf.c', MODE=0, NPH=2, ENT=36), J('elf.c', MODE=2)],
     'all program header fields free; identification, table offset, entry size and count free (0 to 4 entries, table at its place or beyond the end); any truncation of the file',
     'program header tables that overlap the ELF header or the data; more than 2 headers inside the file',
     lambda: [J('elf.c', MODE=1, NPH=2, ENT=36, time=850), J('elf.c', MODE=2, NPH=2, time=850)])
prop('C11', lambda: [J('flash.c', MODE=0, SMALL=1), J('flash.c', MODE=1), J('scale.c', KIND=8, steps=400000000)],
     'images of 0 to 11 bytes, any address around a region of up to 255 bytes at 0x08000000 or the end of the address space; initial stack pointers in any 256 MB block with less than 64 KB of RAM; RAM of 1, 8 and 16 MB; images of about 280000 bytes',
     'longer images',
     lambda: [J('flash.c', MODE=0, N=33, SMALL=1, time=850), J('flash.c', MODE=1, N=20, time=850)])
prop('C12', lambda: [J('dump.c'), J('dump.c', VER=2), J('dump.c', VER=3, FP=0, NR=2, MAXB=2), J('dump.c', VER=2, FP=0, NR=2), J('dump.c', NR=0), J('dump.c', FIXED=1, MAXB=600, FP=0), J('scale.c', KIND=6, steps=400000000)],
     'both versions, any flags and register values, with and without floating point registers, 0, 1 or 2 regions of 0 to 3 bytes anywhere; one region of 600 fixed-size free bytes; a region of 70000 bytes',
     'more than 2 regions; regions that overlap, or reach the end of the address space; longer regions',
     lambda: [J('dump.c', VER=3, FP=1, NR=3, MAXB=2, time=850), J('dump.c', VER=2, FP=0, NR=2, MAXB=6, time=850)])
prop('C13', lambda: [J('dump.c', HEX=1), J('dump.c', HEX=2), J('dump.c', HEX=3, VER=2, FP=0), J('dump.c', HEX=4, FP=0), J('dump.c', HEX=4, VER=2), J('dump.c', HEX=5, VER=2, FP=0, NR=2), J('dump.c', HEX=1, FIXED=1, MAXB=120, FP=0, VER=2, NR=2), J('scale.c', KIND=6, HEX=1, steps=400000000)],
     'hex texts whose digits are all 0-9, all a-f, or all A-F; one free digit of either case at any place; up to 3 CR/LF characters at any place; a region of 120 bytes; a region of 70000 bytes',
     'digits of all classes free at once; longer dumps',
     lambda: [J('dump.c', HEX=1, NR=2, time=850), J('dump.c', HEX=4, FP=1, NR=2, time=850), J('dump.c', HEX=5, FP=1, NR=2, time=850)])
prop('C14', lambda: [J('dumpbad.c', FP=1), J('dumpbad.c', VER=2, NR=2), J('dumpbad.c', HEX=1, covers_optional=['cut down to a sentinel']), J('dumpbad.c', HEX=1, VER=2, FP=1, covers_optional=['cut down to a sentinel']), J('dumpbad.c', KIND=1), J('dumpbad.c', KIND=1, VER=2), J('dumpbad.c', KIND=2), J('dumpbad.c', KIND=2, NR=0, HEX=1), J('dumpbad.c', KIND=2, NR=2, VER=2),
                     J('dumpbad.c', KIND=3), J('dumpbad.c', KIND=4, HEX=1), J('dumpbad.c', KIND=5), J('dumpbad.c', KIND=6)],
     'any cut, any signature, the sentinel after 0, 1 or 2 regions, one region over read-only memory or without memory for it, any single bad character in place of another or added before one, regions of negative or huge length, a missing file',
     'several defects at once; a single character after the end of a hexadecimal dump (ignored)',
     lambda: [J('dumpbad.c', FP=1, NR=3, time=850), J('dumpbad.c', HEX=1, FP=1, NR=2, covers_optional=['cut down to a sentinel'], time=850)])
prop('C15', lambda: [J('gdblog.c'), J('gdblog.c', LINES=1, ADDR=1), J('gdblog.c', LINES=1, ADDR=1, CLS=1, DECOR=0), J('gdblog.c', LINES=1, ADDR=1, CLS=2, DECOR=0), J('gdblog.c', LINES=1, CLS=3, DECOR=0), J('gdblog.c', LINES=3, DECOR=0), J('gdblog.c', TOP=1, DECOR=0), J('scale.c', KIND=5, steps=400000000)],
     '1 to 3 lines with 1 to 4 values (3 lines: 1 or 4), 6 kinds of decoration, 3 kinds of line end; values of digits 0-9 (addresses too), all a-f, all A-F, or one free digit; 4400 lines in a row',
     'longer logs; addresses above 0xFFFFFFE0',
     lambda: [J('gdblog.c', LINES=3, time=850), J('gdblog.c', LINES=2, CLS=1, time=850), J('gdblog.c', LINES=4, DECOR=0, time=850)])
prop('C16', lambda: [J('gdbreg.c'), J('gdbreg.c', CLS=1), J('gdbreg.c', CLS=2), J('gdbreg.c', CLS=3), J('gdbreg.c', CLS=4), J('gdbreg.c', NL=2), J('gdbreg.c', NEAR=1)],
     '1 line for any of the 52 registers with 8-digit values (all 0-9, all a-f, all A-F, one free digit) or up to 5 decimal digits; 2 lines; one character of a register name or its padding replaced by any other',
     'longer logs, other number formats',
     lambda: [J('gdbreg.c', NL=2, CLS=i, time=850) for i in (1, 2, 4)])
prop('C17', lambda: [J('gdbany.c', PRE=i, LEN=5) for i in range(7)] + [J('scale.c', KIND=9, steps=400000000)],
     '5 free non-zero characters after 7 kinds of line start, at the end of the file or before a well-formed line; lines of up to 3000 characters with 3 free ones',
     'longer free texts; NUL characters',
     lambda: [J('gdbany.c', PRE=i, LEN=6, time=850) for i in range(7)])
prop('C18', lambda: [J('trycatch.c'), J('trycatch.c', DEPTH=2, LONG=1), J('trycatch.c', MANY=1, steps=400000000)],
     'up to 3 nested blocks, each ending well, throwing before or after the inner block, with or without a message, its handler clearing, rethrowing, throwing something else, leaving by __nothrow or trying again; any positive codes; messages of up to 1200 characters; nests of 9, 65 and 300 blocks, 1000 blocks in a row',
     'deeper nesting; handlers that end without clearing the exception',
     lambda: [J('trycatch.c', DEPTH=4, time=850), J('trycatch.c', DEPTH=3, LONG=1, time=850)])
prop('C27', lambda: [J('fsize.c')],
     'every non-negative file size and start position (64 bits), every one of the operations failing, any negative result of a failing position query',
     'several failing operations')
COMM = dict(srcs=['!libCrashDebug/src/StandardIComm.c', '!libcommon/src/try_catch.c', '!main/MockDefaults.c'], src_defs={'MockDefaults.c': ['-Dread=env_read', '-Dwrite=env_write', '-Dselect=env_select', '-Dpoll=env_poll']})
prop('C26', lambda: [J('comm.c', STEPS=3, **COMM), J('comm.c', MANY=1, steps=400000000, **COMM)],
     '3 operations of any kind on the link, each with any result of select, read and write, any byte; 256 and 65536 bytes each way',
     'the Windows console; partial results that POSIX does not allow for one byte',
     lambda: [J('comm.c', STEPS=5, time=850, **COMM)])
REAL = ['-D%s=real_%s' % (f, f) for f in ('fopen', 'fclose', 'fseek', 'ftell', 'fwrite', 'fread', 'fgets', 'malloc', 'realloc', 'free')]
INJ = dict(srcs=['!libmocks/src/FileFailureInject.c', '!libmocks/src/MallocFailureInject.c'], src_defs={'FailureInject.c': REAL})
prop('C28', lambda: [J('inject.c', KIND=0, STEPS=4, **INJ), J('inject.c', KIND=1, **INJ), J('inject.c', KIND=2, STEPS=4, **INJ), J('inject.c', KIND=3, STEPS=6, **INJ), J('inject.c', KIND=4, STEPS=4, covers_optional=['injected'], **INJ), J('inject.c', KIND=5, **INJ), J('inject.c', KIND=6, steps=400000000, **INJ)],
     'sequences of 4 to 6 operations of one family (open/close, seek, tell/write, read, gets, allocation); any return value asked for, any answer of the C library; passes and failing calls up to the 3rd; up to 3 lines of up to 6 characters; failures after 127 to 65536 calls, lines of 5000 characters, 261 lines',
     'longer sequences, more lines; asking for the nth read without making reads fail first; passes left over when seeks are restored',
     lambda: [J('inject.c', KIND=i, STEPS=n, time=850, **INJ) for i, n in ((0, 6), (1, 6), (2, 6), (3, 8), (4, 5), (5, 6))], stubs=['the C library under the injectors answers freely and notes its arguments'])
SPY = dict(srcs=['!libmocks/src/printfSpy.c', 'env.c', '!libcommon/src/try_catch.c'], src_defs={'printfSpy.c': ['-Dprintf=real_printf', '-Dfprintf=real_fprintf', '-Dmalloc=env_malloc', '-Dfree=env_free']})
prop('C29', lambda: [J('spy.c', **SPY), J('spy.c', MANY=1, steps=400000000, **SPY)],
     '0 to 5 outputs to one stream, buffer sizes 0 to 4, texts of 0 to 3 free characters; hooked once or twice; up to 65539 outputs, buffers and texts of up to 70000 characters',
     'both streams in use at once (the spy numbers the outputs of both together); failing allocations (the spy asserts)',
     lambda: [J('spy.c', CALLS=9, MAXLEN=5, time=850, **SPY)])
MRI = dict(srcs=MEM + ['mri.c'])
MRISTUB = ['the functions of the absent mri core that CrashDebug calls are stand-ins that record what they are given (harness/mri.c)']
prop('C21', lambda: [J('regs.c', **MRI)],
     'all values of all registers and flags, one register write packet with all values free', 'malformed packets (parsed by the mri core, which is absent)', stubs=MRISTUB)
prop('C22', lambda: [J('dbgmem.c', **MRI), J('dbgmem.c', NREG=2, OPS=1, **MRI), J('dbgmem.c', MANY=9, steps=100000000, **MRI)],
     '1 region and 2 accesses, 2 regions and 1 access, of any width at any address; regions of any base and any size below 64 KB, one possibly read-only',
     'longer access sequences', lambda: [J('dbgmem.c', OPS=3, SMALL=1, time=850, **MRI), J('dbgmem.c', NREG=2, OPS=2, SMALL=1, time=850, **MRI)], stubs=MRISTUB)
prop('C23', lambda: [J('fault.c', SECT=0, covers_optional=['forced', 'fault address shown', 'the text shows a bounded number of values'], **MRI)] + [J('fault.c', SECT=i, covers_optional=['forced', 'fault address shown'], **MRI) for i in (4, 5, 6)] + [J('fault.c', SECT=3, **MRI)],
     'all PSR values; for each fault all values of the four fault registers, each present or missing (hard fault: one bit of each section at a time)',
     'hard faults forced by several causes of one section at once', stubs=MRISTUB)
prop('C24', lambda: [J('target.c', **MRI)],
     'all flag words; a memory map of one region of any base and any size below 64 KB, then another region, then an alias, one of them possibly read-only, asked for at any of these times (larger maps: C06)', 'nothing of the target description: it depends on one flag only', stubs=MRISTUB)
prop('C25', lambda: [J('inert.c', **MRI), J('inert.c', MANY=1, steps=400000000, **MRI)],
     'any 2 of 22 requests with free arguments, any registers, 8 bytes of memory at any address, 1 to 3 rounds of the debugger; 256 and 65536 rounds',
     'longer sequences', lambda: [J('inert.c', OPS=3, time=850, **MRI)], stubs=MRISTUB)
prop('C19', lambda: [J('cmdok.c', ELF=0, DUMP=0), J('cmdok.c', ELF=1, DUMP=1, ALIAS=1), J('cmdok.c', ELF=0, DUMP=2, ALIAS=1, NUM=1), J('cmdok.c', ELF=0, DUMP=0, ALIAS=1, NUM=3),
                     J('cmdok.c', ELF=0, DUMP=1, NUM=4), J('cmdok.c', ELF=1, DUMP=2, NUM=2), J('cmdbad.c'), J('cmdbad.c', FREE=2, covers_optional=['incomplete', 'no dump', 'no image', 'an image that cannot be opened is a file error', 'a dump that cannot be opened is a file error', 'no ELF file', 'what is no ELF file is an ELF format error']), J('cmdbad.c', FREE=1, FREELEN=5, covers_optional=['incomplete', 'no ELF file', 'what is no ELF file is an ELF format error']), J('cmdbad.c', FREE=1, FREELEN=6, covers_optional=['incomplete', 'no ELF file', 'accepted', 'what is no ELF file is an ELF format error']),
                     J('cmdtype.c', MODE=0), J('cmdtype.c', MODE=1), J('cmdtype.c', MODE=2), J('cmdalias.c'), J('cmdalias.c', N=70, steps=400000000)],
     'image (5 free bytes) as ELF or binary at any address, dump of each of the 3 kinds with free contents, options in any order and letter case, an alias of any address and 1 to 16 bytes; numbers in hexadecimal (0x, 0X, either digit case), octal and decimal (3 free digits); all lists of up to 4 words out of 10, correct lists with one word replaced by 5 or 6 free characters; the first 4 bytes of the dump free; refused aliases; 3 and 70 aliases, of aliases too, before, between and after the files',
     'longer lists; numbers beyond 32 bits; several images or dumps on one command line beyond what 4 words hold',
     lambda: [J('cmdok.c', ELF=e, DUMP=d, ALIAS=1, NUM=n, time=850) for e in (0, 1) for d in (0, 1, 2) for n in (0, 1, 2, 3, 4)] + [J('cmdbad.c', NARG=5, time=850), J('cmdbad.c', FREE=1, FREELEN=7, covers_optional=['incomplete', 'no ELF file', 'accepted', 'what is no ELF file is an ELF format error'], time=850)])

def cmdfail(e, d, a, n, **k):
    """The two messages are about binary and hexadecimal dumps (read) and GDB logs (gets)."""
    return J('cmdfail.c', ELF=e, DUMP=d, ALIAS=a, MAXOP=n, covers_optional=['reading the dump failed'] if d == 2 else ['reading the log failed', 'a read error of a GDB log is not taken for its end'], **k)


prop('C20', lambda: [cmdfail(e, d, a, (60, 250, 60)[d]) for e, d, a in ((0, 0, 0), (1, 1, 0), (0, 2, 0), (1, 2, 1), (0, 1, 1))],
     'a command line with image, dump of each kind and alias; every single file operation (open, seek, tell, read, line) and every allocation failing once, or every allocation from there on; free contents',
     'several independent failures; partial reads (only a shorter one, taken as the end)',
     lambda: [cmdfail(e, d, 1, 300, time=850) for e, d in ((0, 0), (1, 0), (0, 1), (1, 1), (0, 2), (1, 2))])
MAIN = dict(srcs=MEM[:-1] + ['mri.c', '!main/main.c', '!main/MockDefaults.c'], src_defs={'main/main.c': ['-Dmain=crashdebug_main', '-Dfprintf=env_fprintf', '-Dprintf=env_printf'], 'MockDefaults.c': ['-Dread=env_read', '-Dwrite=env_write', '-Dselect=env_select', '-Dpoll=env_poll'] + ['-D%s=env_%s' % (f, f) for f in ('fopen', 'fclose', 'fread', 'fseek', 'ftell', 'fgets', 'malloc', 'realloc', 'free', 'printf', 'fprintf')]})
MSESS = ['mri gets its parameters', 'the packet fits', 'one byte is read from the input of the process', 'one byte is written to the output of the process'] + ['session', 'nothing is printed before the session', 'GDB is waited for until it sends something', 'the debugger sees the registers of the dump', 'the debugger sees the memory of the image and the dump', 'the program cannot be written', 'the memory of the dump can be written']
prop('C30', lambda: [J('main.c', ELF=e, DUMP=d, **MAIN) for e, d in ((0, 0), (1, 1), (1, 2))] + [J('main.c', MODE=1, ELF=e, covers_optional=MSESS, **MAIN) for e in (0, 1)] + [J('main.c', MODE=2, ELF=e, DUMP=d, MAXOP=(60, 250, 60)[d], covers_optional=MSESS[2:4], **MAIN) for e, d in ((0, 0), (1, 2), (0, 1))],
     'image and dump of each kind with free contents, up to 2 characters from GDB, output failing or not, the debugger failing with any of 39 codes; 6 kinds of bad command lines; every file operation and every allocation failing once, or every allocation from there on',
     'the debugger itself (the mri core is absent); longer inputs; a read error of a GDB log (known finding of C20)', lambda: [J('main.c', ELF=e, DUMP=d, IN=4, time=850, **MAIN) for e in (0, 1) for d in (0, 1, 2)], stubs=MRISTUB + ['select, read and write answer from a free input'])
SUCC, MIXED = ['the load before succeeded', 'the memory map is as long as said'], ['the load before failed']
prop('C31', lambda: [J('again.c', ELF=e, DUMP=d, ELF2=1 - e, DUMP2=d2, **MRI) for e, d, d2 in ((0, 0, 0), (1, 0, 2), (0, 1, 0), (1, 1, 1), (0, 2, 2), (1, 2, 1))] +
                    [J('again.c', HOW=1, DUMP=d, DUMP2=d2, covers_optional=SUCC, **MRI) for d, d2 in ((2, 0), (0, 1), (1, 2), (2, 2), (1, 1))] +
                    [J('again.c', HOW=h, ELF2=1, DUMP=d, DUMP2=d2, MAXOP=(60, 250, 60)[d2], covers_optional=SUCC, **MRI) for h in (2, 3) for d, d2 in ((0, 0), (1, 0), (2, 1), (1, 1), (0, 2), (2, 2))],
     'three loads: files with free contents, then other files of the same or another kind (complete, the dump cut short anywhere, one file operation or allocation failing), used by the debugger when loaded, then the first files again',
     'longer histories; two loads alive at once (there is one memory simulation)',
     lambda: [J('again.c', HOW=h, ELF=e, ELF2=e2, DUMP=d, DUMP2=d2, MAXOP=(100, 300, 100)[d2], time=850, covers_optional=SUCC + MIXED, **MRI) for h in (0, 1, 2, 3) for e, e2 in ((0, 1), (1, 1)) for d in (0, 1, 2) for d2 in (0, 1, 2)], stubs=MRISTUB)
