"""What the supplied header files must define, written down from the descriptions of the machines."""
import os
from lib import build


def files(*dirs):
    """The header files of some machines as the tree has them, below m/."""
    res = {}
    for d in dirs:
        p = os.path.join(build.REPO, "machines", d)
        for n in sorted(os.listdir(p)):
            with open(os.path.join(p, n), "rb") as f:
                res["m/%s/%s" % (d, n)] = f.read().decode("latin-1")
    return res


def run(names, at):
    """Names at successive addresses; a dash is a place without a name."""
    return {n: at + k for k, n in enumerate(names.split()) if n != "-"}


def at(text):
    """name=hex pairs."""
    return {p.split("=")[0]: int(p.split("=")[1], 16) for p in text.split()}


def bits(names):
    """Masks, from bit 0 up."""
    return {n: 1 << k for k, n in enumerate(names.split()) if n != "-"}


TIA_W = run("VSYNC VBLANK WSYNC RSYNC NUSIZ0 NUSIZ1 COLUP0 COLUP1 COLUPF COLUBK CTRLPF REFP0 REFP1 PF0 PF1 PF2 RESP0 RESP1 RESM0 RESM1 RESBL "
            "AUDC0 AUDC1 AUDF0 AUDF1 AUDV0 AUDV1 GRP0 GRP1 ENAM0 ENAM1 ENABL HMP0 HMP1 HMM0 HMM1 HMBL VDELP0 VDELP1 VDELBL RESMP0 RESMP1 "
            "HMOVE HMCLR CXCLR", 0)
TIA_R = run("CXM0P CXM1P CXP0FB CXP1FB CXM0FB CXM1FB CXBLPF CXPPMM INPT0 INPT1 INPT2 INPT3 INPT4 INPT5", 0)
RIOT = dict(run("SWCHA SWACNT SWCHB SWBCNT INTIM TIMINT", 0x280), **run("TIM1T TIM8T TIM64T T1024T - - - - TIM1I TIM8I TIM64I T1024I", 0x294))


def vcs(base=0, read=None, write=None):
    w = base if write is None else write
    r = base if read is None else read
    res = {n: x + w for n, x in TIA_W.items()}
    res.update({n: x + r for n, x in TIA_R.items()})
    res.update(RIOT)
    return dict(res, TIA_BASE_ADDRESS=base, TIA_BASE_READ_ADDRESS=r, TIA_BASE_WRITE_ADDRESS=w)


def atari7800():
    res = run("INPT0 INPT1 INPT2 INPT3 INPT4 INPT5", 8)
    res.update(INPTCTRL=1, VBLANK=1)
    res.update(run("INPT4B INPT4A INPT5B INPT5A", 8), **run("INPT4R INPT4L INPT5R INPT5L", 8))
    res.update(run("AUDC0 AUDC1 AUDF0 AUDF1 AUDV0 AUDV1", 0x15))
    for p, first in enumerate("BACKGRND WSYNC MSTAT DPPH DPPL CHARBASE OFFSET CTRL".split()):
        res.update(run("%s P%dC1 P%dC2 P%dC3" % (first, p, p, p), 0x20 + 4 * p))
    res.update(CHBASE=0x34, CTLSWA=0x281, CTLSWB=0x283, TIM64TI=0x29e, XCTRL=0x470)
    res.update(run("SWCHA SWACNT SWCHB SWBCNT INTIM", 0x280), **run("TIM1T TIM8T TIM64T T1024T", 0x294))
    res.update(run("PAUDF0 PAUDC0 PAUDF1 PAUDC1 PAUDF2 PAUDC2 PAUDF3 PAUDC3 PAUDCTL - PRANDOM - - - - PSKCTL", 0))
    return res


def ves(deprecated):
    res = at("BIOS_CLEAR_SCREEN=d0 BIOS_DELAY=8f BIOS_PUSH_K=107 BIOS_POP_K=11e BIOS_DRAW_CHARACTER=679 COLOR_RED=40 COLOR_BLUE=80 COLOR_GREEN=0 "
             "COLOR_BACKGROUND=c0 COLOUR_RES=40 COLOUR_BLUE=80 COLOUR_GREEN=0 COLOUR_BACKGROUND=c0")
    if deprecated:
        res.update(at("clrscrn=d0 delay=8f pushk=107 popk=11e drawchar=679 red=40 blue=80 green=0 bkg=c0"))
    return res


HC11 = run("PORTA - - PORTC PORTB - - DDRC PORTD DDRD PORTE CFORC OC1M OC1D TCNT - TIC1 - TIC2 - TIC3 - TOC1 - TOC2 - TOC3 - TOC4 - TOC5 - "
           "TCTL1 TCTL2 TMSK1 TFLG1 TMSK2 TFLG2 PACTL PACNT SPCR - - BAUD SCCR1 SCCR2 SCSR SCDR ADCTL ADR1 ADR2 ADR3 ADR4 BPROT - - - OPTION - "
           "EEPCTL HPRIO - - CONFIG", 0)
PARTS11 = {"68hc11a1.asm": (0xb600, 512, 0xbf40, 256), "68hc11e1.asm": (0xb600, 512, 0xbf00, 512), "68hc811e2.asm": (0xf800, 2048, 0xbf40, 256)}


def hc11(part, base=0):
    start, size, boot, down = PARTS11[part]
    res = {n: x + base for n, x in HC11.items()}
    res.update(CSSTRH=base + 0x5c, INIT=0x103d, REGBASE=base, FLASH_START=start, FLASH_SIZE=size, BOOTROM_START=boot, DOWNLOAD_SIZE=down,
               RAM_END=down - 1, FLASH_END=start + size, PA3_4=0x18, PA7_5=0xa0)
    res.update(bits("PA0 PA1 PA2 PA3 PA4 PA5 PA6 PA7"))
    return res


PORTS = run("PTA PTB PTC PTD DDRA DDRB DDRC DDRD", 0)
BITS08 = {}
for _p in "ABCD":
    BITS08.update(bits(" ".join("PT%s%d" % (_p, _k) for _k in range(8))))
BITS08.update(bits("COPD"), **bits("PRS0 PRS1 PRS2 - TRST TSTOP TOIE TOF"))
BITS08.update(bits("CH0MAX TOV0 ELS0A ELS0B MS0A MS0B CH0IE CH0F"), **bits("CH1MAX TOV1 ELS1A ELS1B MS1A - CH1IE CH1F"))
BITS08.update(bits("MODEI IMASKI ACKI"), **bits("MODEK IMASKK ACKK"))
BITS08.update(bits("PGM ERASE MASS HVEN"))
SYS08 = at("FLCR=fe08 BRKH=fe0c BRKL=fe0d BRKSCR=fe0e COPCTL=ffff _vect_SWI=fffc _vect_RESET=fffe")
JK = dict(PORTS, **at("PDCR=a PTAPUE=d KBSCR=1a KBIER=1b INTSCR=1d CONFIG2=1e CONFIG=1f TSC=20 TCNT=21 TCNTH=21 TCNTL=22 TMOD=23 TMODH=23 TMODL=24 "
                      "TSC0=25 TCH0=26 TCH0H=26 TCH0L=27 TSC1=28 TCH1=29 TCH1H=29 TCH1L=2a ADSCR=3c ADR=3d ADICLK=3e BSR=fe00 RSR=fe01 BFCR=fe03 "
                      "INT1=fe04 INT2=fe05 INT3=fe06 FLBPR=fe09 _vect_ADC=ffde _vect_KBIR=ffe0 _vect_TIMOVF=fff2 _vect_TIM1=fff4 _vect_TIM0=fff6 "
                      "_vect_IRQ=fffa"))
JB8 = dict(PORTS, **run("PTE DDRE TSC - TCNT TCNTL TMODH TMODL TSC0 TCH0H TCH0L TSC1 TCH1H TCH1L KBSCR KBIER UIR2 UCR2 UCR3 UCR4 IOCR POCR ISCR "
                        "CONFIG UE0D0 UE0D1 UE0D2 UE0D3 UE0D4 UE0D5 UE0D6 UE0D7 UE1D0 UE1D1 UE1D2 UE1D3 UE1D4 UE1D5 UE1D6 UE1D7 UE2D0 UE2D1 UE2D2 "
                        "UE2D3 UE2D4 UE2D5 UE2D6 UE2D7 UADDR UIR0 UIR1 UCR0 UCR1 USR0 USR1", 8))
JB8.update(at("TCNTH=c BSR=fe00 RSR=fe01 BFCR=fe03 INT1=fe04 FLBPR=fe09 _vect_KBIR=fff0 _vect_TIMOVF=fff2 _vect_TIM1=fff4 _vect_TIM0=fff6 "
              "_vect_IRQ=fff8 _vect_USB=fffa"))
MR32 = dict(PORTS, **run("PTE PTF - - DDRE DDRF TASC TACNTH TACNTL TAMODH TAMODL TASC0 TACH0H TACH0L TASC1 TACH1H TACH1L TASC2 TACH2H TACH2L TASC3 "
                         "TACH3H TACH3L CONFIG PCTL1 PCTL2 FCR FSR FTACK PWMOUT PCNTH PCNTL PMODH PMODL PVAL1H PVAL1L PVAL2H PVAL2L PVAL3H PVAL3L "
                         "PVAL4H PVAL4L PVAL5H PVAL5L PVAL6H PVAL6L DEADTM DISMAP SCC1 SCC2 SCC3 SCS1 SCS2 SCDR SCBR ISCR ADSCR ADRH ADRL ADCLK SPCR "
                         "SPSCR SPDR - - - - - - - - - - TBSC TBCNTH TBCNTL TBMODH TBMODL TBSC0 TBCH0H TBCH0L TBSC1 TBCH1H TBCH1L PCTL PBWC PPG", 8))
MR32.update(at("SBSR=fe00 SRSR=fe01 SBFCR=fe03 LVISCR=fe0f FLBPR=ff7e"))
MR32.update({"_vect_" + n: 0xffd2 + 2 * k for k, n in enumerate(
    "SCItransmit SCIreceive SCIerror SPItransmit SPIreceive ADC TIMOVF TIM1 TIM0 TimAOvf TimACh3 TimACh2 TimACh1 TimACh0 PWMmc Fault4 Fault3 "
    "Fault2 Fault1 PLL IRQ".split())})
PARTS08 = {     # registers, start and size of RAM and flash
    "mc68hc908jk1.asm": (JK, 0x80, 128, 0xf600, 1536), "mc68hc908jk3.asm": (JK, 0x80, 128, 0xec00, 4096),
    "mc68hc908jb8.asm": (JB8, 0x40, 256, 0xdc00, 8192), "mc68hc908mr32.asm": (MR32, 0x60, 768, 0x8000, 32256),
}
FIRM = {"mc68hc908jk1.asm": at("ReadMonitor=fc00 FlashRead=fc03 FlashErase=fc06 FlashProgram=fc09 DelayUs=fc0c MoniRomDelayLoop=fd21"),
        "mc68hc908jk3.asm": at("ReadSerial=fc00 FlashRead=fc03 FlashErase=fc06 FlashProg=fc77 DelayUs=fc0c WriteSerial=fed0 MoniRomDelayLoop=fd21"),
        "mc68hc908jb8.asm": at("ReadSerial=fc00 FlashRead=fc03 FlashErase=fc06 FlashProg=fc77 DelayUs=fc0c WriteSerial=fed6 MoniRomDelayLoop=fd21"),
        "mc68hc908mr32.asm": at("WriteSerial=fec3")}


def hc08(part, given):
    """given: the sizes and places that are set before the header is included."""
    regs, ram, ramsize, flash, flashsize = PARTS08[part]
    res = dict(BITS08, **regs)
    res.update(SYS08, **FIRM[part])
    res.update(RAM_START=ram, RAM_SIZE=ramsize, FLASH_START=flash, FLASH_SIZE=flashsize)
    res.update(given)
    if "mr32" not in part:
        res.update(run("fwCtrlByte fwCpuSpeed fwLastAddr - fwDataBlock", res["RAM_START"] + 8))
    if "jb8" in part:
        res.update(bits("PTE0 PTE1 PTE2 PTE3 PTE4 PTE5 PTE6 PTE7"))
    return res
