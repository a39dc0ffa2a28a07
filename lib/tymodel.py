"""The documented typing rules (SPVM::Document::Language::Types, ::Operators): which type can be assigned, cast, used as an operand."""
import re

NUM = ['byte', 'short', 'int', 'long', 'float', 'double']
BOX = ['Byte', 'Short', 'Int', 'Long', 'Float', 'Double']
UNBOX = dict(zip(BOX, NUM))
INTEG = NUM[:4]
MUL = ['Zx_2i', 'Zy_2i', 'Zx_2d']
# the classes of the test world
FILES = {
 'IA': 'class IA : interface_t { required method m1 : int (); }',
 'IB': 'class IB : interface_t { required method m2 : string ($x : int); }',
 'IC': 'class IC : interface_t { use IA; interface IA; required method m1 : int (); required method m3 : void (); }',
 'IM': 'class IM : interface_t { required method : int ($x : object, $y : object); }',
 'KA': 'class KA : public { has fi : public int; static method new : KA () { return new KA; } method ma : int ($x : int = 3) { return $x; } }',
 'KB': 'class KB extends KA : public { use IA; interface IA; static method new : KB () { return new KB; } method m1 : int () { return 1; } }',
 'KC': 'class KC extends KB : public { static method new : KC () { return new KC; } method m1 : int () { return 2; } }',
 'KD': 'class KD : public { use IB; interface IB; static method new : KD () { return new KD; } method m2 : string ($x : int) { return "m" . $x; } }',
 'KE': 'class KE : public { use IC; interface IC; static method new : KE () { return new KE; } method m1 : int () { return 3; } method m3 : void () { } }',
 'KF': 'class KF : public { static method new : KF () { return new KF; } method m1 : int () { return 4; } }',
 'Zx_2i': 'class Zx_2i : mulnum_t { has x : int; has y : int; }',
 'Zy_2i': 'class Zy_2i : mulnum_t { has x : int; has y : int; }',
 'Zx_2d': 'class Zx_2d : mulnum_t { has re : double; has im : double; }',
}
CLASSES = ['KA', 'KB', 'KC', 'KD', 'KE', 'KF']
SUPER = {'KB': 'KA', 'KC': 'KB'}
IFACES = ['IA', 'IB', 'IC']
SAT = {('IA', 'KB'), ('IA', 'KC'), ('IA', 'KE'), ('IA', 'KF'), ('IA', 'IC'), ('IB', 'KD'), ('IC', 'KE')}

def parts(t):
    t = t.replace('mutable ', '')
    m = re.match(r'([\w:]+)((?:\[\])*)(\*?)$', t)
    return m.group(1), len(m.group(2)) // 2, bool(m.group(3))
def is_num(t): return t in NUM
def is_box(t): return t in BOX
def is_mul(t): return t in MUL
def is_ref(t): return t.endswith('*')
def is_arr(t): return t.endswith('[]')
def is_str(t): return t in ('string', 'mutable string')
def is_obj(t): return t not in ('undef', 'void') and not is_num(t) and not is_mul(t) and not is_ref(t)
def is_cls(t): return t in CLASSES or is_box(t)
def supers(c):
    while c in SUPER: c = SUPER[c]; yield c
def sat(i, c): return (i, c) in SAT or c in IFACES and i == c

def widen(to, frm): return NUM.index(frm) <= NUM.index(to)
def can_assign(to, frm, lit=None):
    """the assignment requirement; lit: an integer value if the source is an integer literal, 'f' for a floating literal"""
    if to in ('undef',): return False
    if to == 'void': return frm == 'void'
    if frm == 'void': return False
    if is_num(to):
        if is_num(frm):
            if widen(to, frm): return True
            if isinstance(lit, int) and to in INTEG: b = [7, 15, 31, 63][INTEG.index(to)]; return -(1 << b) <= lit < 1 << b
            return lit == 'f' and to == 'float' and frm == 'double'
        return frm == 'object' or UNBOX.get(frm) == to
    if is_mul(to) or is_ref(to): return to == frm
    if frm == 'undef': return True
    if to == 'string': return is_str(frm) or is_num(frm)
    if to == 'mutable string': return True if frm == to else None if is_num(frm) else False
    if is_box(to): return frm == to or UNBOX[to] == frm
    if to == 'object': return is_obj(frm) or is_num(frm)
    if is_num(frm) or is_mul(frm) or is_ref(frm): return False
    tb, td, _ = parts(to); fb, fd, _ = parts(frm)
    if to == 'object[]': return fd >= 1 and (fd > 1 or is_obj(fb))
    if td != fd: return False
    if tb == fb: return True
    if tb in CLASSES: return tb in supers(fb)
    if tb in IFACES: return sat(tb, fb)
    return False
def can_cast(to, frm):
    """the cast requirement; None: the tables and the tests of the repository disagree or say nothing"""
    if can_assign(to, frm): return True
    if 'void' in (to, frm) or is_mul(to) or is_ref(to): return False
    if is_num(to): return is_num(frm) or is_str(frm)
    if to == 'mutable string' and (is_num(frm) or frm == 'byte[]'): return None
    if is_num(frm) or is_mul(frm) or is_ref(frm): return False
    if frm == 'object': return True
    if to == 'mutable string' and frm == 'string': return True
    if to == 'string': return frm == 'byte[]'
    if to == 'byte[]': return is_str(frm)
    tb, td, _ = parts(to); fb, fd, _ = parts(frm)
    if frm == 'object[]': return td > 1 or td == 1 and is_obj(tb)
    if td != fd: return False
    if tb in CLASSES:
        if fb in supers(tb): return True
        if fb not in IFACES: return False
        return None if td else True if sat(fb, tb) else None
    if tb in IFACES: return None if fb in IFACES else False
    return False
TYPES = NUM + BOX + MUL[:] + ['string', 'mutable string', 'object', 'object[]'] + CLASSES + IFACES + \
    ['byte[]', 'int[]', 'double[]', 'Zx_2i[]', 'Zy_2i[]', 'string[]', 'Int[]', 'KA[]', 'KB[]', 'KC[]', 'KD[]', 'IA[]', 'IB[]', 'IC[]', 'KE[]', 'KF[]',
     'int[][]', 'byte[][]', 'string[][]', 'KA[][]', 'KB[][]', 'IA[][]', 'IC[][]', 'KE[][]', 'int[][][]', 'Zx_2i[][]', 'int*', 'long*', 'Zx_2i*', 'Zy_2i*', 'double*']
