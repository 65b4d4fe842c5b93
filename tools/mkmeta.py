#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below (run by hand after editing)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import plans
INSTR = ('instruction table and dispatch', 'src/z80/opcodes.rs')
MNEM = ('mnemonic bodies', 'src/z80/instructions.rs')
MAC = ('cycle and operand macros', 'src/z80/macros.rs')
OPS = ('arithmetic helpers', 'src/z80/ops.rs')
INTR = ('helpers of the executing methods', 'src/z80/internal.rs')
Z80 = ('public CPU operations', 'src/z80.rs')
FLAGS = ('flag computation', 'src/cpu/flags.rs')
PARSE = ('operand decoding', 'src/cpu/parse.rs')
REGS = ('register pairs', 'src/cpu/registers.rs')
FLV = ('CPU variants', 'src/z80/flavours.rs')
HOST = ('host interfaces', 'src/host.rs')
T_TESTS = 'The repository tests run a handful of hand-picked opcodes with fixed register values, plus (not among the stable tests) a long exerciser program; '
P = []
def prop(pid, title, statement, over, text, why, mech, level_note, files=None, state=(), observe=()):
    a = {'files': files or sorted({w for _, w in mech}), 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = list(observe)
    P.append((dict(id=pid, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why, anchors=a), level_note))
ALLST = 'every value of all registers (main, alternate, index, SP, PC, I, R), every flag byte, interrupt mode, interrupt enable and HALT state, every byte the memory and the ports may answer'
NOTE = 'Deductive proof, complete in the quantified inputs: one symbolic pre-state per obligation, no loop over inputs, unwinding assertions on. Trusted: Kani code generation, CBMC, CaDiCaL, the hand-written postconditions (kani/src/spec.rs).'
prop('C01', '8-bit arithmetic and logic give documented results and flags',
 'Every 8-bit arithmetic and logic instruction (ADD, ADC, SUB, SBC, AND, XOR, OR, CP, INC, DEC, DAA, CPL, NEG, SCF, CCF; on registers, immediates, memory and halves or targets of IX and IY) leaves the accumulator or target, all eight flag bits including the undocumented ones, and memory exactly as documented for the Z80, and changes no other register.',
 ['inputs', 'configurations'], ALLST + '; each of the encodings, with no prefix, DD or FD; the flag instructions on each CPU variant',
 T_TESTS + 'results and flags depend on two operand bytes, the incoming carry and half carry, so 2^17 cases per operation and operand form.',
 [OPS, FLAGS, MNEM, INSTR, PARSE], NOTE)
prop('C02', '16-bit arithmetic gives documented results and flags',
 'ADD, ADC, SBC, INC and DEC on register pairs (HL, IX, IY with BC, DE, HL/IX/IY, SP) leave the exact 16-bit result and all eight flag bits as documented, with 16-bit INC and DEC leaving the flags alone and nothing else changing.',
 ['inputs'], ALLST + '; each encoding with no prefix, DD or FD', T_TESTS + 'a 16-bit addition with carry has 2^33 inputs.', [OPS, FLAGS, MNEM, INSTR, REGS], NOTE)
prop('C03', 'Rotates, shifts and bit instructions are exact, also on memory and IX+d/IY+d',
 'RLCA to RRA, RLC to SRL including the undocumented SLL, RLD, RRD, BIT, SET and RES change exactly the documented bits of their target, set all flag bits as documented (BIT on memory takes its undocumented flags from the internal address register), and after DD CB d / FD CB d also copy the result to the named register.',
 ['inputs'], ALLST + '; all 256 CB opcodes without prefix, after DD and after FD', T_TESTS + 'bit numbers, operands, incoming carry and displacement multiply to far more cases than are tried.', [OPS, FLAGS, MNEM, INSTR, PARSE], NOTE)
prop('C04', 'Block transfer and search instructions are exact, step by step',
 'LDI, LDD, CPI, CPD and their repeating forms transfer or compare exactly one byte per executed step, move HL, DE and BC as documented, set all flag bits including the undocumented ones, and a repeating form goes back to itself exactly when its condition says it must go on.',
 ['inputs', 'histories'], ALLST + '; a whole repetition follows by induction on the steps, each starting in an arbitrary state', T_TESTS + 'a repetition has up to 65536 steps, each able to overwrite the instruction itself.', [INTR, MNEM, OPS, FLAGS], NOTE)
prop('C05', 'Loads, exchanges and stack instructions move exactly what they name',
 'Every LD, EX, EXX, PUSH and POP form (registers, immediates, memory, (nn), (IX+d), stack, I and R) copies exactly the documented bytes between the documented places in little-endian order, wraps addresses at 64 KiB, leaves flags alone except LD A,I / LD A,R / POP AF, and changes nothing else.',
 ['inputs', 'configurations'], ALLST + '; all load encodings with no prefix, DD or FD', T_TESTS + 'a load that is wrong only at an address wrap, for one register, or that disturbs an unrelated register is not sampled.', [MNEM, INSTR, MAC, PARSE, REGS, Z80], NOTE)
prop('C06', 'Jumps, calls, returns and restarts transfer control as documented',
 'JP, JR, DJNZ, CALL, RET, RETN, RETI, RST and JP (HL) go to the documented address exactly when their condition holds on the flags, otherwise to the next instruction; calls push the address of the following instruction, returns pop, displacements are signed and addresses wrap at 64 KiB; no operation among the no-operation encodings changes anything but the program counter and refresh register.',
 ['inputs', 'programs'], ALLST + '; every condition, target, displacement and stack position', T_TESTS + 'each condition is tried with one or two flag values.', [MNEM, INSTR, PARSE, MAC], NOTE)
prop('C07', 'Port input and output reach the host exactly and set documented flags',
 'IN, OUT and the block INI, IND, OUTI, OUTD with repeating forms present the documented 16-bit port number and data to the host once, at its time, store what the host answers, set all flag bits as documented and count the wait states the host asks for; RETI is reported to the host once; a break requested by the host on an output or on RETI ends execution with exactly the value it supplied after the instruction is completed.',
 ['inputs', 'configurations', 'histories'], ALLST + '; every answer of the host to reads, writes, RETI, and every wait state count; single stepping, instruction fetch and limited execution; all CPU variants', T_TESTS + 'the block I/O flags depend on the data, B and C or L together.', [MNEM, INTR, MAC, Z80, HOST], NOTE)
prop('C08', 'DD and FD prefixes replace HL exactly where the Z80 does',
 'After a DD (FD) prefix every following opcode does what its unprefixed form does with H, L, HL and (HL) replaced by the IX (IY) halves, pair or indexed memory exactly where the real processor replaces them; DD and FD before an opcode they do not affect, before ED, or before another prefix have no effect other than taking their own fetch; the last prefix of a run wins.',
 ['inputs', 'programs'], ALLST + '; all 252 opcodes, 256 CB opcodes and a selection of ED opcodes after DD and after FD; runs of prefixes by induction', T_TESTS + 'prefixed forms are barely sampled.', [INSTR, MNEM, PARSE, Z80], NOTE)
prop('C09', 'Every instruction takes the documented bus cycles and T-states',
 'For every instruction, taken and not taken, and for interrupt acknowledge and HALT, the clock is told exactly the documented sequence of opcode fetch, memory, port, acknowledge and internal cycles with the documented addresses and lengths, wait states are added where the host asks, and each memory or port access carries the time stamp of its own cycle.',
 ['inputs', 'configurations'], ALLST + '; all encodings with each prefix', T_TESTS + 'total T-states are compared in a few programs; cycle order, addresses on the bus and time stamps are not.', [MAC, MNEM, INTR, Z80, HOST, ('T-state constants', 'src/z80/internal.rs')], NOTE)
prop('C10', 'Interrupts are accepted exactly when allowed and do exactly what they must',
 'A maskable interrupt is accepted exactly when interrupts are enabled and the last executed opcode was neither EI nor a prefix, a non-maskable one whenever the latter holds; acceptance leaves HALT, pushes the return address, changes the interrupt flip-flops, refresh register and program counter as the current interrupt mode requires (mode 0 executes the supplied opcode, mode 1 goes to 38h, mode 2 through the vector table, NMI to 66h), and RETN, RETI, EI, DI, IM and LD A,I / LD A,R treat the flip-flops as documented.',
 ['inputs', 'configurations', 'histories'], ALLST + '; every vector byte, every pending state; three CPU variants (LD A,I / LD A,R and acceptance)', T_TESTS + 'acceptance depends on history (EI, prefix, HALT) and on data supplied by the device.', [Z80, INTR, MNEM, FLV], NOTE)
prop('C11', 'Limited execution equals repeated single instruction execution',
 'Running under a time limit gives exactly the registers, memory and port accesses, cycles, time stamps, interrupts and break reasons that executing one instruction at a time until the limit gives, stopping after the first instruction that reaches the limit and at HALT, RETI or output breaks; interrupts are checked before each instruction, also while halted, and not after EI or a prefix.',
 ['programs', 'histories', 'schedules'], ALLST + '; arbitrary limits and interrupt request times; the loop is cut at the state between two instructions: obligations cover the first instruction, every pairing class of cached against stored registers, and idle HALT cycles', T_TESTS + 'the loop caches the program counter, flags and prefix, so a mistake shows only for one kind of instruction followed by another.', [Z80, INTR, INSTR, MAC], NOTE + ' The pairs are a selection chosen by how the first instruction leaves the cached registers (see DESIGN.md); the step from pairs to whole runs is by hand.')
prop('C12', 'The debugger is told exactly the bytes and address of what is executed',
 'With a debugger attached, each executed instruction is reported once, with its own address, prefix and exactly the bytes fetched for it, and attaching a debugger changes nothing else: registers, accesses, cycles and break reasons stay the same.',
 ['inputs', 'programs'], ALLST + '; opcodes with and without prefixes, single stepping, fetch, HALT, interrupts of each mode', T_TESTS + 'reported code is checked for a few opcodes only.', [('debug construction', 'src/z80/macros.rs'), ('debug types', 'src/cpu/debug.rs'), Z80, INSTR, INTR], NOTE)
prop('C13', 'Refresh register and internal address register follow the real processor',
 'R is incremented in its low seven bits once per opcode fetch, acknowledge and halted cycle (bit 7 staying as loaded), every opcode fetch shows I and the incremented R on the refresh address, and the internal address register (MEMPTR) takes the value documented for each instruction, jump, return, block step and interrupt.',
 ['inputs', 'histories'], ALLST + ' and the internal address register; all encodings with each prefix', T_TESTS + 'the internal address register is visible only through the undocumented flags of BIT n,(HL).', [MNEM, MAC, Z80, INTR, ('register pairs', 'src/cpu/registers.rs')], NOTE)
prop('C14', 'NMOS, CMOS and BM1 variants differ exactly where the processors do',
 'The three CPU variants give identical results for every instruction except for the documented differences: the undocumented flags of SCF and CCF (which depend on whether the preceding instruction changed the flags), OUT (C),0, the interrupt flip-flop seen by LD A,I / LD A,R during interrupt acceptance, and the internal address register after stores of A.',
 ['inputs', 'configurations', 'histories'], ALLST + '; the flags-modified state after every encoding; each variant', T_TESTS + 'the flags-modified state is a one-bit history of the previous instruction, tested for a few pairs.', [FLV, MNEM, Z80, MAC], NOTE)
exec(open(os.path.join(HERE, 'tools', 'more_props.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'more_props.py')) else None
NA = [('D01', 'Formatted text of instructions and registers is unambiguous',
  'The text form of every decoded instruction and register names exactly the operation and operands that are executed.',
  ['inputs'], 'all encodings and operand values', 'Formatting is checked for a few instructions.', [('Display implementations', 'src/cpu/debug.rs')],
  'core::fmt goes through dynamic dispatch, string slices and loops over text that neither Kani/CBMC nor Verus can bring under a function contract with affordable cost; there is no independent oracle for assembler text beyond the text itself')]
def main():
    have = sorted(plans.PLANS)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p, _ in P:
            if p['id'] in have: f.write(json.dumps(p) + '\n')
        for i, t, s, o, x, w, m, _ in NA:
            f.write(json.dumps(dict(id=i, title=t, statement=s, quantifier={'over': o, 'text': x}, why_tests_cant=w, anchors={'files': sorted({b for _, b in m}), 'mechanism': [{'name': a, 'where': b} for a, b in m]})) + '\n')
    man = {'version': 1,
        'setup_cmd': 'python3 check.py --setup',
        'hooks': {'guard': 'none: nothing is added to /repo; the checks use its public interface and cfg(kani) is set by the verifier', 'enable': 'python3 check.py (cargo kani on kani/ with a path dependency on /repo)', 'source_commits': []},
        'checks': [], 'not_applicable': [{'property': n[0], 'reason': n[-1]} for n in NA],
        'notes': 'Contract-based deductive verification with Kani/CBMC: see DESIGN.md. Each run regenerates and re-discharges every obligation from the current sources of /repo.'}
    for p, note in P:
        if p['id'] not in have: continue
        man['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
            'technique': 'contract-based deductive verification of the real code (Kani/CBMC, function contracts against a reference semantics)', 'level': 'proof', 'level_note': note})
    json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
main()
