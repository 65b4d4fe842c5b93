ANY = ('run-time selected CPU', 'src/z80/any.rs')
CPU = ('CPU interface', 'src/cpu.rs')
CYC = ('cycle constants and counter', 'src/host.rs')
NOTE2 = NOTE.replace('kani/src/spec.rs', 'kani/src/spec.rs, kani/src/api.rs')
prop('C15', 'A run-time selected CPU behaves as the CPU it contains',
 'A Z80Any made from a Z80 of any variant gives, for every operation of the CPU interface (executing, interrupts, debugging, every accessor and setter, reset), exactly the results, host calls and state of the contained CPU, stays of the same variant, and converting into Z80Any and back loses nothing.',
 ['inputs', 'configurations'], ALLST + '; each variant; every method of the interface', 'Z80Any forwards some sixty methods by hand-written macros; the tests run programs on it with one variant and look at the end.',
 [ANY, CPU, FLV], NOTE2 + ' The executing methods are stated for representative encodings: the forwarding does not depend on the encoding.')
prop('C18', 'The counting clock and the default host behave as documented',
 'TsCounter adds exactly the documented number of T-states for each kind of cycle modulo the width of its timestamp, returns the documented time stamp inside the cycle, compares with the limit as documented and converts losslessly from and to its timestamp; a Memory that implements only read_debug is read through it with little-endian words wrapping at 64 KiB, and every host method left unimplemented has its documented neutral behaviour.',
 ['inputs', 'configurations'], 'every counter value, limit, address, internal cycle length and wait state count; counters of 16, 32, 64 and 128 bits, signed ones too', 'The counter is exercised only near zero, and the default methods hardly at all.',
 [CYC, HOST], NOTE2)
prop('C19', 'Codes, conditions and opcode constants round-trip and name what they say',
 'Decoding a register, register pair, condition, prefix or interrupt mode from an opcode takes the documented bits and is inverse to encoding, for every byte; a condition is satisfied exactly by the documented flag; and the published opcode constants and masks pick out exactly the instructions they are named after.',
 ['inputs'], 'every opcode byte and flag byte', 'Only a few codes are tried.',
 [('register and condition codes', 'src/cpu/parse.rs'), ('opcode constants', 'src/lib.rs'), CPU], NOTE2)
prop('C21', 'Forwarding macros delegate every host method unchanged',
 'A Clock, Io or Memory implementation made with the forward_host_* macros, in each of their documented forms, passes every call with all its arguments to the wrapped host once and returns its answer, and does nothing else.',
 ['inputs', 'configurations'], 'every argument of every method and every answer of the wrapped host; the @, @ref/@mut and list forms', 'The macros are only compiled in a documentation example.',
 [('forwarding macros', 'src/macros.rs'), HOST], NOTE2)
prop('C22', 'The state interface reads and writes exactly what it names',
 'Every getter of a CPU returns the named part of its state and every setter changes that part and nothing else (also halves against pairs, index halves after a prefix, alternate registers, refresh register with its lazily added counter); reset leads to the documented state from any state; conversion between variants keeps everything the target has; equality after normalize_r is equality of state.',
 ['inputs', 'configurations'], ALLST + '; each variant and each pair of variants', 'Setters are tested with single values and without looking at the rest of the state.',
 [Z80, REGS, CPU, FLV, FLAGS], NOTE2)
