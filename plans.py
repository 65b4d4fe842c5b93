"""The obligations of each property: which operations, which encodings, which clauses."""
TRUSTED = [
    'rustc/Kani 0.68.0 code generation to goto programs, CBMC 6.11.0 symbolic execution, CaDiCaL',
    'the hand-written postconditions in kani/src/spec.rs (written from the published Z80 documentation)',
    'tools/slimgoto.rs: drops DECL/DEAD of functions with 300+ locals (Rust locals are initialised before use)',
]
ASSUMPTIONS = [
    'the host (memory, ports, clock) is an arbitrary function of the call sequence; it is the recording host of kani/src/real.rs',
    'the pre-state is any state reachable through the public setters, with the pending prefix set by executing DD/FD',
    'standard-library functions (mem::swap, wrapping and overflowing arithmetic, Option) are verified as compiled, not assumed',
]
FL = {'NMOS': 0, 'CMOS': 1, 'BM1': 2}

def xyz(c):
    return c >> 6, c >> 3 & 7, c & 7

def base_family(c):
    x, y, z = xyz(c)
    if c in (0xCB, 0xDD, 0xED, 0xFD): return 'prefix'
    if x == 2 or (x == 3 and z == 6): return 'alu8'
    if x == 0:
        if z in (4, 5): return 'alu8'
        if z == 7: return 'rot' if y < 4 else 'alu8'
        if z == 3: return 'alu16'
        if z == 1: return 'alu16' if y & 1 else 'load'
        if z in (2, 6): return 'load'
        return 'load' if y == 1 else 'ctrl'                 # EX AF,AF' / NOP DJNZ JR
    if x == 1: return 'ctrl' if c == 0x76 else 'load'
    if z == 0: return 'ctrl'
    if z == 1: return 'load' if not y & 1 or y in (3, 7) else 'ctrl'    # POP EXX LD SP / RET JP (HL)
    if z == 2: return 'ctrl'
    if z == 3: return {0: 'ctrl', 2: 'io', 3: 'io', 4: 'load', 5: 'load', 6: 'int', 7: 'int'}[y]
    if z == 4: return 'ctrl'
    if z == 5: return 'ctrl' if y & 1 else 'load'           # CALL / PUSH
    return 'ctrl'                                           # RST

def ed_family(c):
    x, y, z = xyz(c)
    if x == 1:
        return {0: 'io', 1: 'io', 2: 'alu16', 3: 'load', 4: 'alu8', 5: 'ret', 6: 'int', 7: ['load', 'load', 'load', 'load', 'rot', 'rot', 'nop', 'nop'][y]}[z]
    if x == 2 and z <= 3 and y >= 4: return 'block'
    return 'nop'

BASE = [('BASE', c) for c in range(256) if base_family(c) != 'prefix']
ED = [('ED', c) for c in range(256)]
CB = [('CB', c) for c in range(256)]
XCB = [('XCB', c) for c in range(256)]
PFX = [('BASE', 0xDD), ('BASE', 0xFD)]
def fam(*names):
    return [('BASE', c) for c in range(256) if base_family(c) in names] + [('ED', c) for c in range(256) if ed_family(c) in names]

def affected(c):
    x, y, z = xyz(c)
    if x == 0:
        if z == 1: return y & 1 == 1 or y == 4
        if z in (2, 3): return y in (4, 5)
        if z in (4, 5, 6): return y in (4, 5, 6)
        return False
    if x == 1: return c != 0x76 and (4 <= y <= 6 or 4 <= z <= 6)
    if x == 2: return 4 <= z <= 6
    return c in (0xE1, 0xE3, 0xE5, 0xE9, 0xF9)
XAFF = [('BASE', c) for c in range(256) if affected(c)]
XUNAFF = [('BASE', c) for c in range(256) if not affected(c) and c not in (0xCB, 0xED)]

def breaks(enc):
    if enc is None: return False
    pg, c = enc
    return enc == ('BASE', 0xD3) or pg == 'ED' and (c == 0x4D or c >> 6 == 1 and c & 7 == 1 or c >> 6 == 2 and c & 0x27 == 0x23)
def split(stmt, encs):
    """the limited loop goes on or not depending on the host's answer: stated case by case"""
    if 'Limit' not in stmt or not any(breaks(e) for e in encs): return stmt
    return ' '.join('{ let cx = cx.brk(%s); %s }' % (b, stmt) for b in ('false, false', 'true, false', 'false, true'))

class B:
    """collects groups of obligations"""
    def __init__(self): self.groups = []; self.n = 0
    def sweep(self, items, asp, op='Instr', fl='NMOS', pfx=0, size=24, weight=1.0):
        asps = asp.split()
        asp = '{%s}' % '|'.join(asps)
        # instruction fetching operations: the case in which no interrupt is requested
        pre = 'let cx = Cx::<%s>::with(%d, |_s, o| { %s });' % (fl, pfx, 'o.irq0 = false; _s.halt = false;' if 'Limit' in op else 'o.irq0 = false;' if 'Next' in op else '')
        k = max(1, -(-len(items) // size))
        if len(items) >= 48: k = -(-k // 8) * 8
        for i in range(k):
            part = items[i::k] if len(items) > 300 else items[i * len(items) // k:(i + 1) * len(items) // k]
            if not part: continue
            self.groups.append({'name': 'h_%03d' % self.n, 'pre': pre, 'weight': weight, 'asp': asps,
                'stmts': [split('cx.one::<%s, %s>(%s, 0x%02x);' % (asp, op, pg, c), [(pg, c)]) for pg, c in part],
                'labels': ['%s %s %s%s%02X' % (fl, op, ['', 'DD ', 'FD '][pfx], {'BASE': '', 'XCB': 'CB d '}.get(pg, pg + ' '), c) for pg, c in part]})
            self.n += 1
        return self
    def raw(self, stmts, pre='', labels=None, **kw):
        self.groups.append(dict({'name': 'h_%03d' % self.n, 'pre': pre, 'stmts': stmts, 'labels': labels or stmts}, **kw)); self.n += 1
        return self

def count(g):
    return g.get('n', len(g['stmts']))

EXEC = ['Z80::execute_instruction', 'execute_instruction! and the mnemonic macros of src/z80/{opcodes,instructions,macros,parse}.rs it expands']
OPS = ['src/z80/ops.rs (all functions reached, inlined at the call: verified through the caller\'s contract)']

def mk(b, functions, **kw):
    kw.setdefault('level', 'proof')
    return dict({'groups': b.groups, 'functions': functions}, **kw)

NOAFF = ['src/cpu/registers.rs RegisterPair', 'src/cpu/flags.rs CpuFlags', 'src/cpu/parse.rs operand decoding']
def xfam(*names):
    f = {c for p, c in fam(*names) if p == 'BASE'}
    return [(p, c) for p, c in XAFF if c in f]
def family(names, extra=(), asp='REGS DATA', xcb=False):
    b = B()
    b.sweep(fam(*names) + list(extra), asp)
    for p in (1, 2):
        if xfam(*names): b.sweep(xfam(*names), asp, pfx=p)
        if xcb: b.sweep(XCB, asp, pfx=p)
    return b

def c01(t):
    b = family(['alu8'])
    for fl in ('CMOS', 'BM1'): b.sweep([('BASE', c) for c in (0x27, 0x2F, 0x37, 0x3F)] + [('ED', 0x44)], 'REGS DATA', fl=fl)
    return mk(b, EXEC + OPS + NOAFF + ['Flavour::get_q'])
def c02(t): return mk(family(['alu16']), EXEC + OPS + NOAFF)
def c03(t): return mk(family(['rot'], CB, xcb=True), EXEC + OPS + NOAFF + ['src/cpu/parse.rs BitOps'])
def c04(t): return mk(family(['block']), EXEC + OPS + ['Z80::block_* (src/z80/internal.rs)'])
def c05(t):
    b = family(['load'])
    for fl in ('CMOS', 'BM1'): b.sweep([('ED', 0x57), ('ED', 0x5F), ('BASE', 0x02), ('BASE', 0x12), ('BASE', 0x32)], 'REGS DATA', fl=fl)
    return mk(b, EXEC + NOAFF)
def c06(t): return mk(family(['ctrl', 'nop', 'ret']), EXEC + NOAFF)
def c07(t):
    b = family(['io'], asp='REGS DATA TIME')
    blk = [('ED', c) for c in range(256) if ed_family(c) == 'block' and c & 2] + [('ED', c) for c in range(256) if ed_family(c) == 'ret']
    b.sweep(blk, 'REGS DATA TIME')
    for fl in ('CMOS', 'BM1'): b.sweep(fam('io') + blk, 'REGS DATA TIME', fl=fl)
    io = [('ED', c) for c in (0x40, 0x71, 0x79, 0x4D, 0x45, 0x5D, 0xA3, 0xB3, 0xA2, 0xB2)] + [('BASE', 0xD3), ('BASE', 0xDB)]
    b.sweep(io, 'REGS DATA TIME', op='Next').sweep(io, 'REGS DATA TIME', op='Limit')
    return mk(b, EXEC + ['Z80::execute_next', 'Z80::execute_with_limit (one instruction)', 'host::Io callbacks as seen by the host'])
def c08(t):
    b = B()
    b.sweep(PFX, 'REGS DATA')
    for p in (1, 2):
        b.sweep(XAFF + XUNAFF + PFX, 'REGS DATA WZ', pfx=p).sweep(XCB, 'REGS DATA WZ', pfx=p)
        b.sweep(fam('block', 'ret') + [('ED', c) for c in (0x40, 0x42, 0x43, 0x44, 0x46, 0x47, 0x4A, 0x4B, 0x57, 0x60, 0x62, 0x63, 0x67, 0x6B, 0x70, 0x71, 0x00)], 'REGS DATA', pfx=p)
        b.raw(['cx.one::<{REGS|DATA}, Next>(BASE, 0x%02x);' % c for c in (0x09, 0x21, 0x24, 0x34, 0x36, 0x46, 0x66, 0x74, 0x86, 0xE3, 0xE9, 0xF9, 0x00, 0x3E, 0xEB)], pre='let cx = Cx::<NMOS>::new(%d);' % p, asp=['REGS', 'DATA'])
    return mk(b, EXEC + ['Z80::execute_next'])
def everything(b, asp, op='Instr', fl='NMOS', full=True, weight=1.0):
    """every encoding; not full: the DDCB/FDCB pages and unaffected opcodes after a prefix are thinned out"""
    b.sweep(BASE + PFX + ED + (CB if full or op == 'Instr' else CBQ), asp, op=op, fl=fl, weight=weight)
    for p in (1, 2):
        b.sweep(XAFF + (XUNAFF if full else [x for x in XUNAFF if x[1] & 15 in (0, 7)]) + PFX, asp, op=op, fl=fl, pfx=p, weight=weight)
        b.sweep(XCB if full else [x for x in XCB if x[1] & 7 in (6, p - 1)], asp, op=op, fl=fl, pfx=p, weight=weight)
    return b
CBQ = [x for x in CB if x[1] & 7 in (0, 6)]
def interrupts(b, asp, fl='NMOS', short=False):
    """irq(), nmi() and the interrupt part of execute_next(), split into cases by what decides acceptance"""
    a = '{%s}' % '|'.join(asp.split())
    def case(what, fix, ops, pfx=0):
        b.raw(['cx.compare::<%s, %s>(&cx.o, BASE, 0, 0);' % (a, o) if c is None else 'cx.one::<%s, %s>(BASE, 0x%02x);' % (a, o, c) for o, c in ops],
              pre='let cx = Cx::<%s>::with(%d, |s, o| { %s });' % (fl, pfx, fix), asp=asp.split(), labels=['%s %s %s' % (fl, o, what) for o, _ in ops])
    for op in ('Nmi',): case('accepted', 's.ei = false;', [(op, None)]); case('refused after EI', 's.ei = true;', [(op, None)])
    for im in (1, 2):
        case('accepted in IM%d' % im, 's.im = %d; s.iff1 = true; s.ei = false; o.irq0 = true;' % im, [('Irq', None), ('Next', None)])
        case('irq() in IM%d needs no request line' % im, 's.im = %d; s.iff1 = true; s.ei = false; o.irq0 = false;' % im, [('Irq', None)])
    if short: return b
    case('refused: disabled', 's.iff1 = false; s.halt = false;', [('Irq', None), ('Next', 0x23), ('Next', 0xFB)])
    case('refused: after EI', 's.ei = true; s.halt = false;', [('Irq', None), ('Next', 0x23), ('Next', 0xFB)])
    for p in (1, 2):
        case('refused: after a prefix', 's.halt = false;', [('Irq', None), ('Nmi', None), ('Next', 0x23), ('Next', 0xDD)], pfx=p)
    # halted: no fetch, refresh goes on, until an interrupt
    case('halted, no request', 's.halt = true; o.irq0 = false;', [('Next', None)])
    case('halted, disabled', 's.halt = true; s.iff1 = false;', [('Next', None)])
    return b
def im0(b, asp, items, fl='NMOS', op='Irq', size=24):
    """the supplied opcode is executed: first byte from the data bus, the rest from memory"""
    a = '{%s}' % '|'.join(asp.split())
    k = -(-len(items) // size)
    for i in range(k):
        part = items[i::k]
        b.raw([split('cx.%s::<%s, %s>(%s, 0x%02x);' % ('one' if op in ('Irq', 'DIrq') else 'vec', a, op, pg, c), [(pg, c)]) for pg, c in part],
              pre='let cx = Cx::<%s>::with(0, |s, o| { s.im = 0; s.iff1 = true; s.ei = false; o.irq0 = true; });' % fl, asp=asp.split(), labels=['%s %s IM0 %s%02X' % (fl, op, '' if pg == 'BASE' else pg, c) for pg, c in part])
    return b
def c09(t): return mk(interrupts(everything(B(), 'TIME', full=t == 'thorough'), 'TIME'), EXEC + ['Z80::irq', 'Z80::nmi', 'Z80::execute_next', 'every Clock callback as seen by the clock'])
def c10(t):
    b = B()
    for fl in FL: interrupts(b, 'REGS DATA TIME REFR WZ', fl)
    im0(b, 'REGS DATA TIME REFR', BASE + PFX)
    im0(b, 'REGS DATA', [('BASE', c) for c in (0xFF, 0xC7, 0xCD, 0x00, 0x76, 0xFB, 0xF3, 0xDD, 0xC3, 0x36)] + [('ED', c) for c in (0x4D, 0x45, 0x57, 0xB0, 0xB3, 0x46)] + [('CB', 0xC6)], op='Next')
    ints = fam('int', 'ret') + [('ED', 0x57), ('ED', 0x5F), ('BASE', 0x76)]
    for fl in FL:
        b.sweep(ints, 'REGS DATA TIME', fl=fl).sweep(ints, 'REGS DATA', fl=fl, op='Next')
    return mk(b, ['Z80::irq', 'Z80::nmi', 'Z80::irq_no_check', 'Z80::nmi_no_check', 'Z80::execute_next', 'Z80::is_irq_allowed', 'Z80::is_nmi_allowed', 'Flavour::accept*'] + EXEC)
def c13(t): return mk(interrupts(everything(B(), 'REFR WZ', full=t == 'thorough'), 'REFR WZ'), EXEC + ['Z80::irq', 'Z80::nmi', 'Z80::execute_next', 'Z80::get_r/get_ir/inc_r/set_r'])
def c12(t):
    b = B()
    if t == 'thorough': everything(b, 'REGS DATA TIME REFR WZ DBG', op='DInstr')
    else:
        b.sweep(BASE + PFX + [x for x in ED if ed_family(x[1]) != 'nop' or x[1] & 15 == 0] + CBQ, 'REGS DATA TIME DBG', op='DInstr')
        for p in (1, 2): b.sweep(XAFF + PFX + [x for x in XCB if x[1] & 31 in (6, p)] + [('BASE', 0), ('ED', 0x44), ('ED', 0xB0)], 'REGS DATA TIME DBG', op='DInstr', pfx=p)
    io = [('BASE', c) for c in (0x00, 0x36, 0xC3, 0xC4, 0x76, 0xFB, 0xD3, 0x18, 0x10, 0xC7, 0xDD)] + [('ED', c) for c in (0x4D, 0x79, 0xB0, 0x43)] + [('CB', 0x46)]
    b.sweep(io, 'REGS DATA TIME DBG', op='DNext')
    for p in (1, 2): b.sweep([('BASE', c) for c in (0x21, 0x36, 0x7E, 0x00, 0xDD)] + [('XCB', 0x46), ('ED', 0x79)], 'REGS DATA TIME DBG', op='DNext', pfx=p)
    im0(b, 'REGS DATA TIME DBG', io, op='DIrq')
    A = '{REGS|DATA|TIME|DBG}'
    for im in (1, 2):
        b.raw(['cx.compare::<%s, %s>(&cx.o, BASE, 0, 0);' % (A, op) for op in ('DIrq', 'DNext')], pre='let cx = Cx::<NMOS>::with(0, |s, o| { s.im = %d; s.iff1 = true; s.ei = false; o.irq0 = true; });' % im, asp=['REGS', 'DATA', 'TIME', 'DBG'], labels=['DIrq IM%d' % im, 'DNext IM%d' % im])
    b.raw(['cx.compare::<%s, DNext>(&cx.o, BASE, 0, 0);' % A], pre='let cx = Cx::<NMOS>::with(0, |s, o| { s.halt = true; o.irq0 = false; });', asp=['REGS', 'DATA', 'TIME', 'DBG'], labels=['DNext halted'])
    return mk(b, EXEC + ['Z80::execute_next, Z80::irq with a debugger attached', 'CpuDebug and CpuDebugCode construction (src/cpu/debug.rs, macros.rs)'])
def c14(t):
    b = B()
    ed = [x for x in ED if ed_family(x[1]) != 'nop']
    for fl in ('CMOS', 'BM1'):
        b.sweep(BASE + ed, 'REGS DATA WZ QF', fl=fl)
        for p in (1, 2): b.sweep(XAFF if t == 'thorough' else [x for x in XAFF if x[1] in (0x36, 0x70, 0x77, 0xE3) or x[1] & 0xC7 == (0x86 if p == 1 else 4)], 'REGS DATA WZ QF', fl=fl, pfx=p)
        b.sweep(CB if t == 'thorough' else [x for x in CB if x[1] & 7 == 6], 'REGS DATA WZ QF', fl=fl)
        if t == 'thorough':
            for p in (1, 2): b.sweep(XCB, 'REGS DATA WZ QF', fl=fl, pfx=p)
        interrupts(b, 'REGS WZ QF', fl, short=True)
    b.sweep(BASE + ed + CBQ, 'QF')
    for p in (1, 2): b.sweep(XAFF + [x for x in XCB if x[1] & 7 in (6, p)] + [('BASE', c) for c in (0x27, 0x2F, 0x37, 0x3F, 0x80, 0x04)], 'QF', pfx=p)
    interrupts(b, 'QF', short=True)
    return mk(b, EXEC + ['Flavour (NMOS, CMOS, BM1): memptr_mix, begin_instruction, flags_modified, get_q, constants'])
# first instructions of a pair: every way of leaving the loop's cached registers different from the stored ones
FIRST = {'JP nn': [('BASE', 0xC3), 2], 'POP AF': [('BASE', 0xF1), 2], 'EI': [('BASE', 0xFB), 0], 'DI': [('BASE', 0xF3), 0], 'DD': [('BASE', 0xDD), 0], 'FD': [('BASE', 0xFD), 0],
    'ADD A,n': [('BASE', 0xC6), 1], 'LD A,I': [('ED', 0x57), 0], 'RETN': [('ED', 0x45), 2], 'RETI': [('ED', 0x4D), 2], 'OUT (n),A': [('BASE', 0xD3), 1], 'IM 1': [('ED', 0x56), 0],
    'RST 8': [('BASE', 0xCF), 0], 'INC (HL)': [('BASE', 0x34), 1], 'SET 0,B': [('CB', 0xC0), 0], 'CPI': [('ED', 0xA1), 1], 'OTIR': [('ED', 0xB3), 1], 'LDIR': [('ED', 0xB0), 1], 'SCF': [('BASE', 0x37), 0],
    'LD R,A': [('ED', 0x4F), 0], 'EXX': [('BASE', 0xD9), 0]}
SECOND = [('BASE', c) for c in (0x00, 0x01, 0x09, 0x10, 0x18, 0x20, 0x27, 0x37, 0x3F, 0x34, 0x76, 0x7E, 0x86, 0x8F, 0xC0, 0xC3, 0xC4, 0xCD, 0xCF, 0xD3, 0xDB, 0xDD, 0xE3, 0xE9, 0xF1, 0xF3, 0xF5, 0xFB, 0xFD, 0x08)] + \
    [('ED', c) for c in (0x42, 0x45, 0x4D, 0x57, 0x5F, 0x79, 0xA1, 0xB0, 0xB2, 0xB3, 0x46, 0x67)] + [('CB', c) for c in (0x06, 0x10, 0x46, 0xC0)]
def pairs(b, asp, firsts, seconds, fix, fl='NMOS', size=12, pfx=0, extra=0):
    a = '{%s}' % '|'.join(asp.split())
    todo = []
    for n in firsts:
        (pg, c), data = FIRST[n]
        k = (1 if pg == 'BASE' else 2) + 1 + extra
        for s in seconds:
            seq = '&[(%s, 0x%02x), (DATUM, %d)%s]' % (pg, c, data, ', (%s, 0x%02x)' % s if s else '')
            todo.append((split('cx.seq::<%s, LimitN<%d>>(%s);' % (a, k, seq), [(pg, c), s]), '%s execute_with_limit %s; %s' % (fl, n, '%s %02X' % s if s else 'interrupt')))
    n = -(-len(todo) // size)
    for i in range(n):
        part = todo[i::n]
        b.raw([x[0] for x in part], pre='let cx = Cx::<%s>::with(%d, |s, o| { %s });' % (fl, pfx, fix), asp=asp.split(), labels=[x[1] for x in part], weight=2)
    return b
def c11(t):
    b = B()
    A = 'REGS DATA TIME REFR WZ QF'
    one = BASE + PFX + [x for x in ED if ed_family(x[1]) != 'nop'] if t == 'thorough' else [x for x in BASE if x[1] & 1 or x[1] > 0xBF] + PFX + SECOND[30:]
    b.sweep(one, A, op='Limit')
    for p in (1, 2): b.sweep(XAFF[p % 2::2] if t != 'thorough' else XAFF + PFX, A, op='Limit', pfx=p)
    run = 's.halt = false; o.irq0 = false;'
    if t == 'thorough':
        pairs(b, A, list(FIRST), SECOND, run + ' o.irq1 = false;')
        pairs(b, A, ['JP nn', 'POP AF', 'DD', 'EI'], [x for x in BASE + PFX + CB + ED if x not in SECOND], run + ' o.irq1 = false;', size=16)
    else:
        pairs(b, A, ['POP AF', 'JP nn'], SECOND, run + ' o.irq1 = false;')
        pairs(b, A, ['EI', 'DD', 'FD', 'RETN', 'LD A,I', 'OUT (n),A', 'OTIR', 'SCF'], SECOND[:6], run + ' o.irq1 = false;')
    # an interrupt requested while the loop runs
    for im in (1, 2):
        on = run + ' o.irq1 = true; s.im = %d; s.iff1 = true; s.iff2 = true;' % im
        pairs(b, A, [f for f in FIRST if f not in ('EI', 'DI', 'DD', 'FD', 'IM 1')], [None], on, size=6)
        pairs(b, A, ['EI', 'DD', 'FD', 'DI'], [('BASE', 0x00), ('BASE', 0xF3), ('BASE', 0x23), ('ED', 0x45)], on, size=6)
        pairs(b, A, ['EI', 'DD', 'FD'], [('BASE', 0x00), ('BASE', 0x23), ('ED', 0x45)], on, size=6, extra=1)
        pairs(b, A, ['JP nn', 'RETN'], [('BASE', 0x00), ('BASE', 0x23), ('ED', 0x45)], run + ' o.irq1 = true; s.iff1 = false; s.iff2 = false;', size=6)
    # ... or already when it starts: the state left by an earlier call decides
    def start(what, fix, items, k=1, pfx=0):
        b.raw([split('cx.one::<{%s}, LimitN<%d>>(%s, 0x%02x);' % (A.replace(' ', '|'), k, pg, c), [(pg, c)]) for pg, c in items] if items else ['cx.compare::<{%s}, LimitN<%d>>(&cx.o, BASE, 0, 0);' % (A.replace(' ', '|'), k)],
              pre='let cx = Cx::<NMOS>::with(%d, |s, o| { s.halt = false; o.irq0 = true; o.irq1 = false; %s });' % (pfx, fix), asp=A.split(), labels=['%s: execute_with_limit %s%02X' % (what, '' if pg == 'BASE' else pg + ' ', c) for pg, c in items] or ['%s, limit %d' % (what, k)])
    few = [('BASE', c) for c in (0x00, 0x23, 0xFB, 0xDD, 0x86, 0xD3, 0x76)] + [('ED', 0x45), ('ED', 0xB0)]
    start('request pending, after EI', 's.ei = true; s.iff1 = true;', few)
    start('request pending, after EI, one flip-flop', 's.ei = true;', few[:3])
    start('request pending, interrupts disabled', 's.iff1 = false; s.ei = false;', few)
    for p in (1, 2): start('request pending, after a prefix', 's.iff1 = true;', [('BASE', 0x00), ('BASE', 0x23), ('BASE', 0x7E), ('BASE', 0xDD), ('ED', 0x45)], pfx=p)
    for im in (1, 2):
        on = 's.im = %d; s.iff1 = true; s.ei = false;' % im
        start('request pending in IM%d' % im, on, [])
        start('request pending in IM%d, then NOP' % im, on + ' o.rd[%d] = 0;' % (0 if im == 1 else 2), [], k=2)
        pairs(b, A, ['EI'], [('BASE', 0x00), ('BASE', 0x23)], 's.halt = false; o.irq0 = true; o.irq1 = true; s.ei = true; s.iff1 = true; s.im = %d;' % im)
    im0(b, A, [('BASE', c) for c in (0xFB, 0xF3, 0xDD, 0x76, 0x00, 0xCF)] + [('ED', 0x4D), ('ED', 0x46)], op='LimitN<1>')
    # ... supplying an instruction, after which the loop goes on
    for v in (0xFB, 0xF3, 0xDD, 0x00, 0x37):
        for q in ('false', 'true'):
            b.raw(['{ let mut o = cx.o; o.vec = 0x%02x; o.rd[0] = 0x%02x; cx.compare::<{%s}, LimitN<2>>(&o, BASE, 0x%02x, 0x%02x); }' % (v, c, A.replace(' ', '|'), c, c) for c in (0x00, 0x23, 0xFB)],
              pre='let cx = Cx::<NMOS>::with(0, |s, o| { s.im = 0; s.iff1 = true; s.ei = false; o.irq0 = true; o.irq1 = %s; });' % q, asp=A.split(), weight=2, labels=['IM0 supplies %02X; %02X' % (v, c) for c in (0, 0x23, 0xFB)])
            if v not in (0xFB, 0xF3): break
    # halted: idle cycles, wake up
    for k in (1, 2, 3) if t != 'thorough' else (1, 2, 3, 4, 6, 8):
        b.raw(['cx.compare::<{%s}, LimitN<%d>>(&cx.o, BASE, 0, 0);' % (A.replace(' ', '|'), k)], pre='let cx = Cx::<NMOS>::with(0, |s, o| { s.halt = true; s.ei = false; o.irq0 = false; o.irq1 = false; });', asp=A.split(), labels=['halted, %d cycles' % k])
        for im in (1, 2) if k < 3 else ():
            b.raw(['cx.compare::<{%s}, LimitN<%d>>(&cx.o, BASE, 0, 0);' % (A.replace(' ', '|'), k)], pre='let cx = Cx::<NMOS>::with(0, |s, o| { s.halt = true; s.ei = false; s.iff1 = true; s.im = %d; o.irq0 = %s; o.irq1 = true; });' % (im, 'true' if k == 1 else 'false'), asp=A.split(), labels=['halted, woken in IM%d' % im])
    # the limit is reached before anything happens
    b.raw(['cx.compare::<{%s}, LimitN<0>>(&cx.o, BASE, 0, 0);' % A.replace(' ', '|')], pre='let cx = Cx::<NMOS>::new(0);', asp=A.split(), labels=['limit 0'])
    return mk(b, ['Z80::execute_with_limit', 'Z80::execute_with_limit_loop', 'Z80::execute_next'] + EXEC, features=['wide'], unwind=26)
API = 'one contract clause of one method, conversion or constant; all values and states symbolic'
def c15(t):
    b = B()
    few = [('BASE', c) for c in (0x00, 0x02, 0x36, 0x37, 0x76, 0xC3, 0xD3, 0xDD, 0xFB)] + [('ED', c) for c in (0x4D, 0x57, 0x71, 0xB0)] + [('CB', 0x46)]
    for fl in FL:
        A = 'REGS DATA TIME REFR WZ QF'
        b.sweep(few, A + ' DBG', op='AInstr', fl=fl).sweep(few[2:], A + ' DBG', op='ANext', fl=fl).sweep(few, A, op='ALimit', fl=fl)
        im0(b, A + ' DBG', [('BASE', c) for c in (0x00, 0xCF, 0xFB, 0xDD)] + [('ED', 0x4D)], fl=fl, op='AIrq')
        a = '{%s}' % '|'.join(A.split())
        def case(what, fix, ops, pfx=0):
            b.raw(['cx.compare::<%s%s, %s>(&cx.o, BASE, 0, 0);' % (a[:-1], '|DBG}' if o in ('AIrq', 'ANext') else '}', o) for o in ops], pre='let cx = Cx::<%s>::with(%d, |s, o| { %s });' % (fl, pfx, fix), asp=A.split(), labels=['%s %s %s' % (fl, o, what) for o in ops])
        for im in (1, 2): case('accepted in IM%d' % im, 's.im = %d; s.iff1 = true; s.ei = false; o.irq0 = true;' % im, ['AIrq', 'ANext'])
        case('refused: disabled', 's.iff1 = false; s.halt = false;', ['AIrq'])
        case('accepted', 's.ei = false;', ['ANmi'])
        case('refused after EI', 's.ei = true;', ['ANmi'])
        for p in (0, 1, 2):
            for m in ['any_getters()'] + ['any_setters(%d)' % i for i in range(4) if p == 0]:
                b.raw(['cx.%s;' % m], pre='let cx = Cx::<%s>::new(%d);' % (fl, p), labels=['%s %s pfx %d' % (fl, m, p)])
        for m in ('any_converts', 'any_halves'): b.raw(['cx.%s();' % m], pre='let cx = Cx::<%s>::new(0);' % fl, labels=['%s %s' % (fl, m)])
    b.raw(['api::any_new();'], n=1)
    return mk(b, ['every method of Z80Any (src/z80/any.rs): executing, interrupts, accessors, setters, conversions, constructors, tags'], uses=['use crate::api::{self, *};'])
def c18(t):
    b = B()
    for f in ('tsc_u16', 'tsc_u32', 'tsc_u64', 'tsc_i32', 'tsc_i64', 'tsc_u128', 'default_host'): b.raw(['api::%s();' % f])
    return mk(b, ['TsCounter<T>: Clock (src/host.rs)', 'Io and Memory default methods (src/host.rs)', 'host::cycles constants'], uses=['use crate::api;'], unit=API)
def c19(t):
    b = B()
    for f in ('codes', 'constants'): b.raw(['api::%s();' % f])
    return mk(b, ['Reg8, Reg16, StkReg16, Condition, Prefix, InterruptMode: TryFrom, From, from_code, to_code, is_satisfied (src/cpu/parse.rs, src/cpu.rs)', 'opconsts (src/lib.rs)'], uses=['use crate::api;'], unit=API)
def c21(t):
    b = B()
    for f in ('forward_all', 'forward_list', 'forward_ref', 'forward_shared'): b.raw(['api::%s();' % f])
    return mk(b, ['forward_host_{clock,io,memory}_{types,methods}! expansions (src/macros.rs)'], uses=['use crate::api;'], unit=API)
def c22(t):
    b = B()
    for fl in FL:
        for p in (0, 1, 2):
            for m in ('getters', 'setters', 'resets', 'normal') + tuple('converts::<%s>' % g for g in FL):
                b.raw(['cx.%s();' % m], pre='let cx = Cx::<%s>::new(%d);' % (fl, p), labels=['%s %s pfx %d' % (fl, m, p)])
    b.raw(['api::register_pair();']).raw(['api::cpu_flags();'])
    return mk(b, ['Cpu for Z80<F>: every getter and setter (src/z80.rs)', 'Z80::new, reset, normalize_r, into_flavour, from_flavour, PartialEq, Clone', 'RegisterPair (src/cpu/registers.rs)', 'CpuFlags (src/cpu/flags.rs)'], uses=['use crate::api;'], unit=API)
PLANS = {k.upper(): v for k, v in list(globals().items()) if k[0] == 'c' and k[1:].isdigit()}

def plan(pid, tier):
    return PLANS[pid](tier)
CLAUSE = {
    'REGS': 'ensures every register, flag, interrupt and halt state and the returned cause equal the specified ones',
    'DATA': 'ensures the sequence of memory, port, acknowledge and RETI accesses (kind, address, value) equals the specified one',
    'TIME': 'ensures the sequence of bus cycles, T-state total, wait states and time stamps equals the specified one',
    'REFR': 'ensures R and the refresh address of every opcode fetch equal the specified ones',
    'WZ': 'ensures the internal address register (MEMPTR) equals the specified one',
    'QF': 'ensures the flags-modified state (Q) equals the specified one',
    'DBG': 'ensures the debugger is told exactly the bytes, address and prefix of the executed instruction',
}
