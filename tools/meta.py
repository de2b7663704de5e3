#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and the checks registered in checks.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, ROOT + '/engine']
from checks import CHECKS
L = 'libCrashDebug/src/'
MS, CC, EL, GL, CL, MP, SI = (L + x for x in ('MemorySim.c', 'CrashCatcherDump.c', 'ElfLoad.c', 'GdbLogParser.c', 'CrashDebugCommandLine.c', 'mriPlatform.c', 'StandardIComm.c'))
FF, MF, PS = ('libmocks/src/' + x for x in ('FileFailureInject.c', 'MallocFailureInject.c', 'printfSpy.c'))
NOTEST = 'The 16 tests that build here exercise only libmocks; '
P = []


def p(pid, title, statement, over, text, why, files, mech, obs=()):
    assert len(title) <= 80, title
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(obs), hook_needed=None)))


I = ['inputs']
H = ['inputs', 'histories']
F = ['inputs', 'fault_sequences']
p('C01', 'Simulated memory returns the last value written, little endian',
  'A read of 8, 16 or 32 bits from the simulated memory returns, byte by byte and little endian, what the last write, image load or store through a host mapping put there, and zero where nothing was written. An access changes no byte outside its own range and no other region.',
  H, 'every region place and size, every sequence of 8/16/32-bit reads and writes, image loads and host-mapped stores, every address and value',
  NOTEST + 'the project\'s own memory tests sample a few aligned addresses and constants, not every overlap of widths, offsets, region edges and overlapping regions.',
  [MS, 'include/IMemory.h', 'include/MemorySim.h'], [('read8/16/32, write8/16/32', MS), ('MemorySim_MapSimulatedAddressToHostAddressForRead/Write', MS), ('MemorySim_LoadFromFlashImage', MS)], ['IMemory_Read*/IMemory_Write*'])
p('C02', 'Accesses outside mapped regions fault and touch nothing',
  'A memory access or host mapping of any width succeeds exactly when all its bytes lie inside one mapped region; otherwise it raises a bus error, changes nothing and touches no host memory out of bounds. This includes accesses that straddle a region end or wrap past the top of the 32-bit address space, and host mappings of any length.',
  I, 'every set of up to 4 regions, every address and width, every host-mapping length up to 2^32-1',
  NOTEST + 'bounds arithmetic goes wrong at single addresses near 0 and 2^32 and at region ends that samples do not hit.',
  [MS], [('findMatchingRegion', MS), ('MemorySim_MapSimulatedAddressToHostAddressForRead/Write', MS)], ['exception code', 'host memory accesses'])
p('C03', 'Read-only regions refuse writes and nothing else',
  'Once the region holding an address is made read-only (once or repeatedly), every write and every host mapping for writing into it raises a bus error and leaves its bytes alone, while reads, read mappings and image loads still work. Other regions stay writable, and asking for an unmapped address to be made read-only is a bus error.',
  H, 'every map, every address made read-only, every later access of every kind',
  NOTEST + 'protection must hold for every address, width, overlap and order of requests.',
  [MS], [('MemorySim_MakeRegionReadOnly', MS), ('throwIfReadOnly / write paths', MS)])
p('C04', 'Aliases show exactly the memory they redirect to',
  'After an alias is made, an access inside it behaves exactly like the access at the redirected address: same bytes both ways, same read-only protection, for aliases of aliases too. The alias is no longer than the target memory allows, accesses beyond it fault, and aliasing an unmapped address is a bus error.',
  H, 'every region, alias address, size and redirect address (also of other aliases), every access afterwards',
  NOTEST + 'offset arithmetic over alias chains, trimmed sizes and protected targets has to be right for every combination.',
  [MS], [('MemorySim_CreateAlias', MS), ('findMatchingRegion', MS)])
p('C05', 'Running out of memory is reported and leaves the memory map intact',
  'When any allocation made by a memory-simulator operation (region, alias, read-only request, watch/breakpoint, flash regions, memory map text) fails, the operation raises an out-of-memory exception and the map answers as before. The operation can be retried successfully, and nothing is leaked or freed twice.',
  F, 'every operation, every one of its allocations failing once or from there on, every place and size of the regions involved',
  NOTEST + 'each allocation site of each operation is a separate fault point, and the state afterwards has to be probed everywhere.',
  [MS], [('MemorySim_CreateRegion, MemorySim_CreateAlias, MemorySim_MakeRegionReadOnly, MemorySim_GetMemoryMapXML, watchpoint list', MS)], ['exception code', 'allocator accounting'])
p('C06', 'The memory map sent to GDB lists every region exactly',
  'The memory map XML lists every region and alias once, in creation order, with its type (flash with a 1-byte block size when read-only, ram otherwise), start and length in hexadecimal, inside the fixed header and trailer. It is complete and within its buffer for every number and size of regions, and can be asked for repeatedly, also after the map has grown.',
  H, 'every base and size of up to 4 entries, every subset read-only, aliases, repeated requests',
  NOTEST + 'the buffer size computation and the digits printed depend on every combination of digit counts and entry kinds.',
  [MS], [('MemorySim_GetMemoryMapXML', MS)], ['returned text'])
p('C07', 'Break- and watchpoints trigger exactly inside what is set',
  'A watchpoint is reported exactly when an access of its type lies wholly inside a watched range that is still set, the report is given once and cleared by asking, and a 16-bit read inside a breakpoint raises the breakpoint exception. Clearing removes exactly the matching request; requests for unmapped ranges are bus errors; redirected (alias) accesses count as accesses to the target.',
  H, 'up to 3 set/clear requests of every kind, range and order over every map, then every access',
  NOTEST + 'boundaries of ranges, types and the set/clear history multiply beyond what tests enumerate.',
  [MS], [('setWatchpoint/clearWatchpoint and checks on read/write', MS), ('MemorySim_WasWatchpointEncountered', MS)])
p('C08', 'Flash read counts equal the number of 16-bit reads',
  'For read-only memory the read count of a halfword is exactly the number of 16-bit reads made of it, directly or through an alias, and other accesses do not count. Asking for the count of writable or unmapped memory is a bus error.',
  H, 'every region, up to 2 (thorough: 3) accesses of every kind at every address, count asked for every address',
  NOTEST + 'counts are indexed by computed offsets that must be right at every address and odd size.',
  [MS], [('MemorySim_GetFlashReadCount, read16', MS)])
p('C09', 'A loaded ELF image is exactly its loadable segments',
  'After an ELF file is loaded, exactly the loadable segments with file contents are mapped, each at its physical load address with exactly the bytes of the file, and each is read-only. Segments of other types, empty segments and bytes outside the segments are not mapped.',
  I, 'every program header content (type, offset, address, sizes) for 1 and 2 headers and entry size, every file byte',
  NOTEST + 'no ELF test builds in the baseline, and field combinations are unbounded.',
  [EL, L + 'ElfPriv.h'], [('ElfLoad_FromMemory', EL)], ['memory map after load'])
p('C10', 'Malformed ELF files are rejected without reading past the file',
  'An ELF file is accepted exactly when it is a 32-bit little-endian executable whose program header table and loadable segments lie inside the file and at least one segment is loaded; anything else raises an ELF format exception with a message. No field value or truncation makes the loader read outside the file image.',
  I, 'every value of the ELF header, program header fields and entry sizes, every truncation',
  NOTEST + 'integer overflow in offset plus size needs single rare field values.',
  [EL], [('validateElfHeader / throwIf... bounds check', EL)], ['exception code', 'host memory accesses'])
p('C11', 'Raw flash images load exactly where asked, or not at all',
  'Loading an image into existing memory succeeds exactly when it fits the region at its address, puts exactly its bytes there and keeps the region\'s protection. Making regions from a flash image gives read-only flash at 0 holding the image and zeroed RAM from the 256 MB boundary up to the initial stack pointer; an image too short for a stack pointer is a buffer overrun exception.',
  I, 'every image up to 11 bytes, every address, region and initial stack pointer with RAM below 64 KB',
  NOTEST + 'sizes that are not multiples of a word and ends of regions are where copying goes wrong.',
  [MS], [('MemorySim_LoadFromFlashImage, MemorySim_CreateRegionsFromFlashImage', MS)])
p('C12', 'A CrashCatcher binary dump is loaded faithfully',
  'After a well-formed binary dump (version 2 or 3) is loaded, every register, the exception PSR, the flags and, when the flags announce them, every floating point register hold the dumped values, and exactly the dumped memory ranges are mapped, writable and hold the dumped bytes. Registers the dump lacks keep their values or, for MSP and PSP in version 2, are marked 0xBAADBAAD.',
  I, 'every register value and flag word, 0 to 2 regions of any place, bytes free',
  NOTEST + 'every field position and every value of every byte matters.',
  [CC], [('CrashCatcherDump_ReadBinary', CC)], ['RegisterContext', 'memory after load'])
p('C13', 'A hexadecimal dump loads the same as its binary form',
  'A dump in hexadecimal text, with digits of either case and line ends anywhere, loads exactly the registers and memory of the binary dump it stands for.',
  I, 'every digit value at every place, every digit case, line ends of up to 3 characters at every place',
  NOTEST + 'line ends may fall at any nibble and each digit has 22 encodings.',
  [CC], [('CrashCatcherDump_ReadHex, hex digit parsing', CC)])
p('C14', 'Damaged dumps are refused with the right error and no leak',
  'A dump that is missing, cut short, has a bad signature or non-hexadecimal character, ends in the stack overflow marker, or describes a region that cannot be loaded raises the matching exception, with a message that names the problem where it is the signature, the header or a region. The file is closed and no memory leaks; a dump cut exactly between regions is complete.',
  F, 'every cut position, every signature, every bad character at every place, every unloadable region and allocation failure',
  NOTEST + 'each cut position takes a different path.',
  [CC], [('CrashCatcherDump_Read*, readWithError', CC)], ['exception code and message', 'open files'])
p('C15', 'Memory lines of a GDB log are loaded faithfully',
  'Every x/4xw style line of a GDB log maps exactly its one to four words at its address with exactly the logged values, consecutive lines joining into one writable block, whatever symbols, error texts, prompts or line ends surround them. Memory lines change no register.',
  I, 'addresses and values of any digits, 1 to 3 lines with 1 to 4 values each, decorations and line ends',
  NOTEST + 'parsing depends on every character.',
  [GL], [('GdbLogParse two-pass parser', GL)])
p('C16', 'Register lines of a GDB log set exactly the named registers',
  'Every info all-registers line sets exactly the register it names (r0-r12, sp, lr, pc, xpsr, msp, psp, s0-s31, fpscr) to the logged value, and a floating point register turns the floating point flag on. Registers that are not logged keep their values, except that MSP and PSP are marked 0xBAADBAAD.',
  I, 'every register name, every value (hex digits of either case, decimal), one or two lines',
  NOTEST + 'needs every name and every value.',
  [GL], [('register line parsing', GL)])
p('C17', 'Any text in a GDB log is survived',
  'Whatever characters a GDB log contains, parsing ends normally without touching memory outside the line, registers that are not named stay as they are, no words are invented, and well-formed lines that follow are still loaded.',
  I, 'every text of 5 characters after each kind of line start, including over-long lines and a missing final line end',
  NOTEST + 'arbitrary text is a 256^n space.',
  [GL], [('line splitting and parsing', GL)], ['host memory accesses'])
EXTRA = os.path.join(ROOT, 'tools', 'meta_more.py')
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())
CLAIM = [q for q in P if q['id'] in CHECKS]
with open(ROOT + '/properties.jsonl', 'w') as f:
    for q in P:
        f.write(json.dumps(q) + '\n')
man = dict(version=1, setup_cmd='bash engine/build.sh', checks=[], not_applicable=[])
for q in CLAIM:
    c = CHECKS[q['id']]
    man['checks'].append(dict(
        property=q['id'], quick_cmd='python3 check.py ' + q['id'], thorough_cmd='python3 check.py %s --thorough' % q['id'],
        evidence_file='evidence/%s.json' % q['id'],
        technique='symbolic execution of the LLVM IR of /repo\'s sources with an SMT solver (z3); counterexamples replayed natively',
        level='model_checking',
        level_note='Holds for all values within: %s. Outside: %s. Trusts clang\'s IR at -O1, the executor in engine/, z3 and the stand-ins: %s.' % (c['bounds'], c['outside'], '; '.join(c['stubs']))))
man['not_applicable'] = [dict(property=q['id'], reason='no check built yet') for q in P if q['id'] not in CHECKS]
json.dump(man, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties,', len(CLAIM), 'claimed')
