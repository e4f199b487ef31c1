"""
A reference assembler for JVM bytecode, written from the JVM
specification (chapter 6) and sharing nothing with the code under test.

An instruction of the model is a tuple (mnemonic, operand...):

  no operands    ("nop",)
  u1 / s1 / s2   ("bipush", -3) ("sipush", 400) ("iload", 7)
  u1 constant    ("ldc", const)
  u2 constant    ("getfield", const) ...
  s2 branch      ("goto", 12)
  s4 branch      ("goto_w", 70000)
  ("iinc", var, delta)
  ("invokeinterface", const, count)    ("invokedynamic", const)
  ("multianewarray", const, dims)
  ("tableswitch", default, low, [offsets])
  ("lookupswitch", default, [(match, offset), ...])
  ("wide", "iload", var)   ("wide", "iinc", var, delta)

where const is a constant of the class model (see classfile.py).
"""

import struct

# mnemonic list in order of opcode value, 0x00 .. 0xc9
_NAMES = """
nop aconst_null iconst_m1 iconst_0 iconst_1 iconst_2 iconst_3 iconst_4
iconst_5 lconst_0 lconst_1 fconst_0 fconst_1 fconst_2 dconst_0 dconst_1
bipush sipush ldc ldc_w ldc2_w iload lload fload dload aload
iload_0 iload_1 iload_2 iload_3 lload_0 lload_1 lload_2 lload_3
fload_0 fload_1 fload_2 fload_3 dload_0 dload_1 dload_2 dload_3
aload_0 aload_1 aload_2 aload_3
iaload laload faload daload aaload baload caload saload
istore lstore fstore dstore astore
istore_0 istore_1 istore_2 istore_3 lstore_0 lstore_1 lstore_2 lstore_3
fstore_0 fstore_1 fstore_2 fstore_3 dstore_0 dstore_1 dstore_2 dstore_3
astore_0 astore_1 astore_2 astore_3
iastore lastore fastore dastore aastore bastore castore sastore
pop pop2 dup dup_x1 dup_x2 dup2 dup2_x1 dup2_x2 swap
iadd ladd fadd dadd isub lsub fsub dsub imul lmul fmul dmul
idiv ldiv fdiv ddiv irem lrem frem drem ineg lneg fneg dneg
ishl lshl ishr lshr iushr lushr iand land ior lor ixor lxor iinc
i2l i2f i2d l2i l2f l2d f2i f2l f2d d2i d2l d2f i2b i2c i2s
lcmp fcmpl fcmpg dcmpl dcmpg
ifeq ifne iflt ifge ifgt ifle
if_icmpeq if_icmpne if_icmplt if_icmpge if_icmpgt if_icmple
if_acmpeq if_acmpne goto jsr ret tableswitch lookupswitch
ireturn lreturn freturn dreturn areturn return
getstatic putstatic getfield putfield
invokevirtual invokespecial invokestatic invokeinterface invokedynamic
new newarray anewarray arraylength athrow checkcast instanceof
monitorenter monitorexit wide multianewarray ifnull ifnonnull goto_w jsr_w
""".split()

CODE = {n: i for i, n in enumerate(_NAMES)}
assert len(_NAMES) == 0xca and CODE["jsr_w"] == 0xc9
assert CODE["wide"] == 0xc4 and CODE["tableswitch"] == 0xaa

U1 = set("iload lload fload dload aload istore lstore fstore dstore astore "
         "ret newarray".split())
S1 = {"bipush"}
S2 = {"sipush"}
BRANCH2 = set(n for n in _NAMES if n.startswith("if")) | {"goto", "jsr"}
BRANCH4 = {"goto_w", "jsr_w"}
CONST1 = {"ldc"}
CONST2 = set("ldc_w ldc2_w getstatic putstatic getfield putfield "
             "invokevirtual invokespecial invokestatic new anewarray "
             "checkcast instanceof".split())
SPECIAL = set("iinc invokeinterface invokedynamic multianewarray "
              "tableswitch lookupswitch wide".split())
WIDE_U2 = U1 - {"newarray"}
PLAIN = set(_NAMES) - U1 - S1 - S2 - BRANCH2 - BRANCH4 - CONST1 - CONST2 \
    - SPECIAL
HAS_CONST = CONST1 | CONST2 | {"invokeinterface", "invokedynamic",
                               "multianewarray"}

# the code under test spells two mnemonics differently; opcodes are
# compared by value only
NAMES = tuple(_NAMES)


def length(ins, offset):
    """ the length in bytes of ins at this offset """
    return len(encode(ins, offset, lambda c: 1))


def encode(ins, offset, index):
    """ bytes of one instruction; index(const) gives a pool index """

    n = ins[0]
    op = bytes([CODE[n]])
    p = struct.pack

    if n in PLAIN:
        return op
    if n in U1:
        return op + p(">B", ins[1])
    if n in S1:
        return op + p(">b", ins[1])
    if n in S2 or n in BRANCH2:
        return op + p(">h", ins[1])
    if n in BRANCH4:
        return op + p(">i", ins[1])
    if n in CONST1:
        return op + p(">B", index(ins[1]))
    if n in CONST2:
        return op + p(">H", index(ins[1]))
    if n == "iinc":
        return op + p(">Bb", ins[1], ins[2])
    if n == "invokeinterface":
        return op + p(">HBB", index(ins[1]), ins[2], 0)
    if n == "invokedynamic":
        return op + p(">HBB", index(ins[1]), 0, 0)
    if n == "multianewarray":
        return op + p(">HB", index(ins[1]), ins[2])
    if n == "wide":
        sub = bytes([CODE[ins[1]]])
        if ins[1] == "iinc":
            return op + sub + p(">Hh", ins[2], ins[3])
        return op + sub + p(">H", ins[2])

    pad = b"\0" * (-(offset + 1) % 4)
    if n == "tableswitch":
        default, low, joffs = ins[1:]
        out = op + pad + p(">iii", default, low, low + len(joffs) - 1)
        return out + b"".join(p(">i", j) for j in joffs)
    if n == "lookupswitch":
        default, pairs = ins[1:]
        out = op + pad + p(">ii", default, len(pairs))
        return out + b"".join(p(">ii", a, b) for a, b in pairs)
    raise ValueError(n)


def operands(ins, index):
    """ the operand values the instruction carries, constants by index """

    n = ins[0]
    if n in PLAIN:
        return ()
    if n in U1 or n in S1 or n in S2 or n in BRANCH2 or n in BRANCH4:
        return (ins[1],)
    if n in CONST1 or n in CONST2:
        return (index(ins[1]),)
    if n == "iinc":
        return (ins[1], ins[2])
    if n == "invokeinterface":
        return (index(ins[1]), ins[2], 0)
    if n == "invokedynamic":
        return (index(ins[1]), 0, 0)
    if n == "multianewarray":
        return (index(ins[1]), ins[2])
    if n == "wide":
        return (CODE[ins[1]],) + tuple(ins[2:])
    if n == "tableswitch":
        return (ins[1], ins[2], ins[2] + len(ins[3]) - 1, list(ins[3]))
    if n == "lookupswitch":
        return (ins[1], [tuple(x) for x in ins[2]])
    raise ValueError(n)


def assemble(insns, index):
    """ (bytes, [(offset, opcode, operands), ...]) """

    out = b""
    listing = []
    for ins in insns:
        off = len(out)
        listing.append((off, CODE[ins[0]], operands(ins, index)))
        out += encode(ins, off, index)
    return out, listing


def offsets(insns):
    off, res = 0, []
    for ins in insns:
        res.append(off)
        off += length(ins, off)
    return res, off
