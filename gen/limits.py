"""Sources that go to the limits of names, lines, strings, stacks and tables."""

SIZES = ([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 34, 62, 63, 64, 65, 66] + list(range(125, 132)) + list(range(252, 262))
         + list(range(494, 516)) + list(range(960, 1032)) + [1500, 2040, 2047, 2048, 2049, 3000, 4095, 4096, 4097])
SMALL = [0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 34, 35, 40, 62, 63, 64, 65, 66, 70, 100, 128, 200, 255, 256, 257, 300]
CPUS = ["6502", "65c02", "6803", "hd6303", "68705", "68hc11", "68908", "f8"]


def size(r):
    k = r.random()
    return r.choice(SIZES) if k < .55 else r.choice(SMALL) if k < .8 else r.randrange(1040)


def word(r, n, first=True):
    c = r.choice(["a", "Zq", "x1", "_", "abcdefghij", "m.", "q$"])
    s = (c * (n // len(c) + 1))[:n]
    return s


def string(r, n):
    c = r.choice(["s", "a b", " ", "%s", "%n", "\\", "\t", "\xe9", "\x80", "'", "{1}", "{", "/*", "*/", ";", "\x01", "0", ",", "%d%x"])
    return (c * (n // len(c) + 1))[:n]


def digits(r, n):
    p, d = r.choice([("$", "0123456789abcdefABCDEF"), ("", "0123456789"), ("0", "01234567"), ("%", "01"), ("0x", "0123456789abcdef"), ("%", "0129"), ("0", "0789")])
    return p + "".join(r.choice(d) for _ in range(n))


def sym(r):
    return r.choice(["u1", "d1", "known", "str1", "eqm1", ".", "..", "*", "...", "{1}", "{0}", ".loc", "1$", "later", "\"ab\"", "-1", "$1ff", "65536"])


def expr(r, n):
    k = r.randrange(10)
    n = min(n, 400)
    if k == 0:
        return r.choice(["[", "(", "-", "~", "!", "<", ">", "<>", "-~!"]) * n + sym(r) + r.choice(["", "]" * n, ")" * n, "]" * (n + 1), ")" * (n - 1 if n else 0)])
    if k == 1:
        op = r.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "=", "!=", "<", ">", "<=", ">=", "&&", "||", "?", ","])
        return op.join(sym(r) for _ in range(n + 1))
    if k == 2:
        ops = ["||", "&&", "|", "^", "&", "==", "<", "<<", "+", "*"]
        return "".join(sym(r) + ops[min(j, 9)] for j in range(n)) + "1"
    if k == 3:
        return "".join("1%s[" % r.choice("+-*|&") for _ in range(n)) + "1" + "]" * n
    if k == 4:
        return digits(r, n)
    if k == 5:
        return "\"%s\"" % string(r, n) + r.choice(["", "+1", ",2", "==\"%s\"" % string(r, n), "[1]d"])
    if k == 6:
        return "[%s]d" % expr(r, min(n, 20)) + r.choice(["", "d", "+\"x\"", "[2]d"])
    if k == 7:
        return word(r, n or 1)
    if k == 8:
        return "'" + r.choice(["a", "", "'", "\"", "\\", "\x80", " ", "\t", ";", ","]) + r.choice(["", "'", "+1"])
    return sym(r)


def body(r, files):
    """Some lines."""
    n = size(r)
    k = r.randrange(53)
    m = r.choice(SMALL)
    if k == 0:
        return word(r, n) + r.choice(["", ":", "\tnop", " equ 1", "=1", " set 2", " eqm 1+1", " = \"x\"", "\tmac", "\tds 1", " seg", "\tsubroutine", "\trepeat 2\n\trepend", "\tdc.b 1"])
    if k == 1:
        return "\t" + word(r, n) + r.choice(["", " 1", ".b 1", ".", ".w.b 3"])
    if k == 2:
        return "\tdc%s %s" % (r.choice(["", ".b", ".w", ".l", ".s", ".x"]), expr(r, n))
    if k == 3:
        return "\t%s %s" % (r.choice(["dc.b", "dc.w", "dc.l", ".byte", ".word", ".long", "byte", "echo", "ds", "hex", "org", "align", "rorg"]), ",".join(sym(r) for _ in range(m)))
    if k == 4:
        return "\t%s \"%s\"" % (r.choice(["dc.b", "dc.w", "dc.l", "dc.s", "echo", "include", "incbin", "incdir", "processor", "seg", "seg.u", "err", "list", "if", "repeat", "lda", "org", "ds", "align", "hex", "ifconst", "setstr", "subroutine", "trace"]), string(r, n))
    if k == 5:
        return "\tif 1\n" * m + "\tnop\n" + "\tendif\n" * r.choice([m, 0, m + 1, m // 2])
    if k == 6:
        return "\tif 0\n" * m + "\telse\n" * r.randrange(3) + "\tnop\n" + "\tendif\n" * r.choice([m, 0, m + 1])
    if k == 7:
        return "\trepeat 1\n" * m + "\tnop\n" + "\trepend\n" * r.choice([m, 0, m + 1, m // 2])
    if k == 8:
        return "\tmac mm\n\tdc.b %s\n\tendm\n\tmm %s" % (",".join("{%d}" % (j + 1) for j in range(m)), ",".join(r.choice(["1", "\"a\"", word(r, n // (m + 1)), "[1+2]", "(3,4)", "<x>", ""]) for _ in range(r.choice([m, 0, m + 1, m // 2]))))
    if k == 9:
        return "\tmac mx\n\tdc.b %s\n\tendm\n\tmx %s" % (r.choice(["{1}", "{1},", "{0}", "{1}{1}", "\"{1}\"", "x{1}y "]) * r.choice([1, 2, 5, 20, 100, 300]), word(r, n))
    if k == 10:
        return "\tmac my\n{1}{2}%s\n\tendm\n\tmy %s,%s" % (word(r, 3), word(r, n), word(r, size(r)))
    if k == 11:
        return "\tmac " + word(r, n) + "\n\tnop\n\tendm\n\t" + word(r, n)
    if k == 12:
        return "ee eqm %s\n\tdc.b %s\n\tlda ee" % (expr(r, n), "+".join(["ee"] * r.choice([1, 2, 10, 31, 32, 33, 40])))
    if k == 13:
        return "\tsetstr %s%s" % (word(r, n), r.choice(["", " x", ",1"])) if r.random() < .5 else word(r, n // 2) + " setstr " + word(r, n)
    if k == 14:
        return "st setstr %s\n\tsetsym st 5\nst setsym 7\nst setsym %s\n\tdc.b %s" % (word(r, n), expr(r, n), word(r, n))
    if k == 15:
        return "\tinclude \"%s\"" % word(r, n) if r.random() < .5 else "\tincdir \"%s\"\n\tinclude \"%s\"\n\tincbin \"%s\"" % (word(r, n), word(r, size(r)), word(r, size(r)))
    if k == 16:
        files["big.bin"] = "B" * r.choice([0, 1, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 5000])
        return "\tincbin \"big.bin\"%s" % r.choice(["", ",1", ",%d" % n, ",-1", ",later", ",\"x\"", ",1,2"])
    if k == 17:
        return "\tprocessor " + r.choice([word(r, n), "6502", "f8", "\"6502\"", "6502x", "0", ""])
    if k == 18:
        return "%s%s\tdc.b 1" % (r.choice(["a", "lab", "", ".x"]), "".join("," + r.choice(["1", "known", "\"%s\"" % string(r, n // 3), "str1", "u1", "-1", "$ffffffffffffffff", "", expr(r, 5)]) for _ in range(r.choice([1, 2, 3, 20, 80]))))
    if k == 19:
        return ".%s\n%d$\n\tsubroutine %s\n.%s\tdc.w .%s,%d$" % (word(r, n), m, word(r, n), word(r, n), word(r, n), m)
    if k == 20:
        t = r.choice(["nop;", "nop /*", "/*", "; ", "dc.b 1 ;", "dc.b \"a\" /*"])
        return "\t" + t + string(r, n) + r.choice(["", "*/", "*/ nop", "\n*/", "*/*/", "/*"])
    if k == 21:
        return r.choice(["\t", " ", " \t"]) * n + r.choice(["nop", "dc.b 1", "; c", "", "lab"])
    if k == 22:
        return "\tdc.b 1" + r.choice(["\t", " ", "\t;"]) * n + r.choice(["", ";c", ",2"])
    if k == 23:
        return "\tds%s %s,%s" % (r.choice(["", ".b", ".w", ".l"]), r.choice([str(n), "-1", "u1", "later", "\"a\"", "0"]), r.choice(["0", "$ff", "256", "u1", "\"x\""]))
    if k == 24:
        return "\talign %s,%s" % (r.choice([str(n), "0", "-1", "u1", "1", "65536", "\"a\""]), r.choice(["0", "u1", "300"]))
    if k == 25:
        return "\thex " + "".join(r.choice("0123456789abcdefABCDEF g") for _ in range(n))
    if k == 26:
        return "ev eqm ..+1\n\tdv%s ev %s" % (r.choice(["", ".b", ".w", ".l"]), ",".join(r.choice(["1", "u1", "\"abc\"", expr(r, 3)]) for _ in range(m)))
    if k == 27:
        return "\tlda%s %s" % ("." + r.choice("bwlxyi0123d") * r.choice([1, 2, 5, 50, n]), expr(r, 2))
    if k == 28:
        return "\t%s %s%s%s" % (r.choice(["lda", "ldx", "jmp", "bne", "brset", "bset", "aim", "stx", "lr", "li", "br", "cbeq", "mov", "ldaa", "brclr", "pi", "in", "outs", "lis", "bt", "bf", "clr", "dbnz"]),
                                r.choice(["#", "(", "[", "", "<", ">", "<#"]), r.choice([sym(r), expr(r, n)]), r.choice(["", ",x", ",y", "),y", ",x)", ",sp", ",x+", "],y", ",1", ",1,2", ",x,later", ",,", ","]))
    if k == 29:
        return "\t%s\n" % r.choice(["endm", "endif", "eif", "else", "repend", "mexit", "rend", "end", "err", "list on", "list off", "list localoff", "list localon", "seg", "seg.u bss", "trace on", "subroutine", "mac", "macro", "repeat", "if", "ifconst", "ifnconst", "equ", "set", "eqm", "dc", "ds", "dv", "org", "rorg", "align", "hex", "echo", "include", "incbin", "incdir", "processor", "setstr", "setsym"])
    if k == 30:
        return "\trepeat %s\n\tdc.b 1\n%s\trepend" % (r.choice(["0", "-1", "3", "u1", "later&3", "\"a\"", "1,2"]), r.choice(["", "\tmexit\n", "\tif 0\n", "lab%d\n" % m, "q,{1} equ 1\n"]))
    if k == 31:
        return "\tmac q%d\n%s\tendm\n\tq%d %s" % (m, r.choice(["\tmexit\n", "\tif 1\n\tmexit\n", "\trepeat 2\n\tmexit\n\trepend\n", "\tif 1\n", "\trepeat 2\n", "{1}\n", "{}\n", "{99}\n", "{-1}\n", "{1\n", "{1{2}}\n", "{999999999999999999}\n", "\tendm {1}\n", "\tmac z{1}\n\tnop\n"]), m, expr(r, 3))
    if k == 32:
        return "\tmac rr\n\trr%s\n\tendm\n\trr 1" % r.choice(["", " {1}", " {1}{1}", " {1},{1}"])
    if k == 33:
        files["inc.h"] = r.choice(["\tnop", "\tmac\n", "/* ", "\tif 1\n", "\trepeat 2\n\tnop\n", "\tendif\n", "\trepend\n", "\tmexit\n", "\tinclude \"inc2.h\"\n", "\tdc.b 1\n" * 50, "\tendm\n", "", "\n" * 100, "x" * 3000])
        files["inc2.h"] = "lab2\tnop\n\terr" if r.random() < .2 else "\tnop\n"
        return "\tinclude \"inc.h\"\n" * r.choice([1, 2, 5])
    if k == 34:
        return "\tdc.b " + r.choice(["{1}", "{}", "{", "}", "{1", "1}", "{{1}}", "{1}}", "{9}"]) * r.choice([1, 3, 200, 500])
    if k == 35:
        return "".join(chr(r.randrange(256)) for _ in range(n)).replace("\n", " ")
    if k == 36:
        return "\tdc.b \"" + "".join(chr(r.randrange(256)) for _ in range(n)).replace("\n", " ") + "\""
    if k == 37:
        return "d1 equ 5\nd1 equ 6\n%s\n%s" % (word(r, n), word(r, n))
    if k == 38:
        return "\torg %s,%s\n\tdc.b 1" % (r.choice(["$2000", "-1", "$ffff", "u1", "later", "\"x\"", "$7fffffff", "$100000000", "."]), r.choice(["0", "256", "u1", "\"x\""]))
    if k == 39:
        return "\trorg %s\n\tdc.w .\n%s" % (r.choice(["$f000", "-1", "u1", "later", "\"x\"", "."]), r.choice(["\trend", ""]))
    if k == 40:
        return "\tseg%s %s\n\torg %s\n\tds 2\n\tdc.b 1\n\tseg code" % (r.choice(["", ".u"]), word(r, n), r.choice(["$80", "u1", "0"]))
    if k == 41:
        return "\techo " + ",".join(r.choice([expr(r, 10), "\"%s\"" % string(r, n // 2), "[%d]d" % m, "str1"]) for _ in range(r.choice([1, 2, 10, 70])))
    if k == 42:
        return "\tif%s %s\n\tnop\n\telse\n\tdc.b 1\n\tendif" % (r.choice(["", "const", "nconst"]), r.choice([expr(r, n), word(r, n)]))
    if k == 43:
        return "x%d\t%s\n" % (m, r.choice(["equ", "=", "set", "eqm", "equ.b"])) + "y equ %s\nz set %s" % (expr(r, n), expr(r, m))
    if k == 44:
        return "\tmac big\n" + "\tdc.b {1},{2}\n" * m + "\tendm\n\tbig %s,%s" % (word(r, n // 2), expr(r, 3))
    if k == 45:
        return "".join("s%d equ s%d+1\n" % (j, j + 1) for j in range(min(m, 30))) + "\tdc.b s0"
    if k == 46:
        return "\tdc.b " + ",".join(["\"" + "a" * r.choice([1, 100, 250, 255, 256, 300]) + "\""] * r.choice([1, 2, 3, 4]))
    if k == 47:
        return "\tdc.%s " % r.choice("wl") + ",".join(["$1234"] * r.choice([100, 127, 128, 150, 170])) + "\n\tdc.l \"" + "q" * r.choice([200, 255, 256, 257, 400, 511, 512, 513, 900]) + "\""
    if k == 48:
        return "\t.%s%s %s" % (r.choice(["lda", "byte", "dc", "equ", "nop", ""]), r.choice(["", ".b", ".w", ".", ".."]), expr(r, 2))
    if k == 49:
        return "%s\tsetsym 1\n%s set 1" % (r.choice(["str1", "u1", "d1", "\"x\"", ""]), r.choice([".q", "1$", "$", ".", "..", "..."]))
    if k == 51:
        # more messages and errors than the initial buffers hold
        t = r.choice(["\techo \"%s\"" % ("e" * r.choice([10, 200, 900])), "\tbadmn%s 1" % ("q" * r.choice([1, 50, 400])), "\tdc.b 300", "\tlda #bad%s+300" % ("z" * 60), "\tdc 1 2 3"])
        u = r.choice(["\techo \"x\",1,2", "\tzzz", "\tdc.b -999", ""])
        return "\trepeat %d\n%s\n\trepend\n\trepeat %d\n%s\n\trepend" % (r.choice([20, 100, 400, 900]), t, r.choice([20, 100, 400, 900]), u)
    if k == 50:
        return "\n".join("%s%d\tdc.b 1" % (word(r, 5), j) for j in range(m * 3))
    return "\t" * r.randrange(3) + r.choice([":", "=", "'", "\"", "#", "\\", "@", "$", "%", "[", "]", "(", ")", "{", "}", ",", ".", "*", "/", "/*", "*/", "\x00", "\r", "\x1a", "\xff"]) * r.choice([1, 2, n])


def program(r):
    """(files, args without the file options)"""
    files = {}
    parts = []
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        b = body(r, files)
        k = r.random()
        if k < .1:
            b = "\tmac wrap%d\n%s\n\tendm\n\twrap%d 1,%s" % (len(parts), b, len(parts), word(r, size(r)))
        elif k < .15:
            b = "\trepeat %d\n%s\n\trepend" % (r.randrange(3), b)
        elif k < .2:
            b = "\tif %d\n%s\n\telse\n%s\n\tendif" % (r.randrange(2), b, b)
        elif k < .25:
            n = "w%d.h" % len(parts)
            files[n] = b
            b = "\tinclude \"%s\"" % n
        parts.append(b)
    head = "\tprocessor %s\n" % r.choice(CPUS) if r.random() < .97 else ""
    head += r.choice(["\torg $1000\n", "\torg $1000\n", "\tseg.u\n\torg $10\n", "\torg 0\n\trorg $f000\n", ""])
    head += "known equ 5\nstr1 setstr hello\neqm1 eqm known+1\n.loc\n"
    text = head + "\n".join(parts) + r.choice(["\n", "", "\r\n", "\nlater\tdc.b 1\n", "\nlater\n\tend\n", "\n\tdc.b later\nlater"])
    if r.random() < .05:
        text = text.replace("\n", "\r\n")
    files["main.asm"] = text
    return files


def options(r):
    a = []
    n = size(r)
    if r.random() < .5:
        a.append("-%sO.lst" % r.choice("lL"))
    if r.random() < .5:
        a.append("-sO.sym")
    if r.random() < .5:
        a.append("-f%d" % r.choice([1, 2, 3]))
    for o in ["-T0", "-T1", "-v0", "-v1", "-v2", "-v3", "-v4", "-E0", "-E1", "-E2", "-S", "-R", "-p1", "-p3", "-P4", "-p20", "-m100", "-Iinc", "-I.", "-d"]:
        if r.random() < .08:
            a.append(o)
    if r.random() < .15:
        a.append(r.choice(["-Dcl=%s" % expr(r, n), "-Mcl=%s" % expr(r, n), "-D%s" % word(r, n or 1), "-D%s=1" % word(r, n or 1), "-D=1", "-D", "-M", "-DA=\"%s\"" % word(r, n), "-DA='%s'" % word(r, n)]).replace("\x00", "0"))
    if r.random() < .05:
        a.append(r.choice(["-I" + word(r, min(n, 2000)) + "/", "-I"] + ["-I" + "d%d/" % (n % 7)]))
    if r.random() < .04:
        a.append(r.choice(["-f0", "-f4", "-f", "-E9", "-T5", "-v9", "-p0", "-p-1", "-m0", "-m", "-p", "-P", "-x", "-", "", "-vv", "-E", "-T", "-p99999", "-m99999999", "-S1", "bogus", "/x"]))
    return a
