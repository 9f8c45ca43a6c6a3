from pydv.engine import Contract, Loop
from pydv.spec import SPECS

M = "UnicodeData.Utilities:"


@SPECS.fn
def s_is_surrogate(c): return 0xD800 <= c <= 0xDFFF


@SPECS.fn
def s_is_lead(c): return 0xD800 <= c <= 0xDBFF


@SPECS.fn
def s_is_trail(c): return 0xDC00 <= c <= 0xDFFF


@SPECS.fn
def s_nonchar(c): return 0xFDD0 <= c <= 0xFDEF or c == 0xFFFE or c == 0xFFFF or (0x10000 <= c <= 0x10FFFF and c % 0x10000 >= 0xFFFE)


@SPECS.fn
def s_join(lead, trail): return 0x10000 + (lead - 0xD800) * 0x400 + (trail - 0xDC00)


U32 = ["0 <= code", "code <= 0xFFFFFFFF"]

CONTRACTS = [
    Contract(M + "isUnicodeNoncharacter", {"code": "int"}, ["0 <= code"],
             ["iff(result, s_nonchar(code))"], theory="bv", result="bool"),
    Contract(M + "isSurrogate", {"code": "int"}, U32, ["iff(result, s_is_surrogate(code))"], theory="bv", result="bool"),
    Contract(M + "isLead", {"code": "int"}, U32, ["iff(result, s_is_lead(code))"], theory="bv", result="bool"),
    Contract(M + "isTrail", {"code": "int"}, U32, ["iff(result, s_is_trail(code))"], theory="bv", result="bool"),
    Contract(M + "isSurrogateLead", {"code": "int"}, ["s_is_surrogate(code)"], ["iff(result, s_is_lead(code))"], theory="bv", result="bool"),
    Contract(M + "isSurrogateTrail", {"code": "int"}, ["s_is_surrogate(code)"], ["iff(result, s_is_trail(code))"], theory="bv", result="bool"),
    Contract(M + "charFromSurrogates", {"lead": "int", "trail": "int"}, ["s_is_lead(lead)", "s_is_trail(trail)"],
             ["result == s_join(lead, trail)", "0x10000 <= result", "result <= 0x10FFFF"], theory="bv", result="int"),
    Contract(M + "surrogatesFromChar", {"ch": "int"}, ["0x10000 <= ch", "ch <= 0x10FFFF"],
             ["len(result) == 2", "s_is_lead(result[0])", "s_is_trail(result[1])", "s_join(result[0], result[1]) == ch"], theory="bv"),
    Contract(M + "arithmeticShift", {"value": "int", "bitsInWord": "int", "bitsInField": "int"},
             ["1 <= bitsInField", "bitsInField <= bitsInWord", "bitsInWord <= 62", "0 <= value", "value < (1 << bitsInWord)"],
             # the top bitsInField bits of a bitsInWord-bit two's complement word, sign extended
             ["result == (value - (1 << bitsInWord) if value >= (1 << (bitsInWord - 1)) else value) >> (bitsInWord - bitsInField)"],
             theory="bv", bvwidth=72, result="int"),
    Contract(M + "highBit", {"value": "int"}, ["0 <= value", "value < 0x10000000000000000"],
             [], theory="bv", bvwidth=72,
             cases=[{"name": "zero", "requires": ["value == 0"], "ensures": ["is_none(result)"]},
                    {"name": "positive", "requires": ["value > 0"],
                     "ensures": ["0 <= result", "result < 64", "(1 << result) <= value", "value < (1 << (result + 1))"]}]),
    # L: the texts of the codes, one by one
    Contract(M + "listOfCodes", {"codes": "intlist"}, ["len(L) == len(codes)", 'forall(lambda k: implies(0 <= k and k < len(codes), L[k] == f"{codes[k]:04X}"))'],
             ['result == join_of(", ", L)'], ghosts={"L": "strlist"}, result="str",
             loops=[Loop(inv=["len(codeList) == _k", 'forall(lambda j: implies(0 <= j and j < _k, codeList[j] == f"{codes[j]:04X}"), pat=codeList[j])'], types={"elem": "str"})]),
]
