"""What each check explores."""
CLS = {"?": 256, "D": 257, "H": 258, "N": 259, "P": 260, "W": 261, "S": 262, "E": 264}


class Rep:
    """a long document: pieces of text, a pair (text, count) a repeated one (no symbolic bytes in those)"""

    def __init__(self, *pieces):
        self.pieces = pieces


def T(template, cls="?"):
    """document parameters: the characters in cls stand for symbolic bytes of that class, the others for themselves"""
    if isinstance(template, Rep):
        r = []
        for x in template.pieces:
            if isinstance(x, str):
                r += T(x, cls)[1:]
            else:
                u = T(x[0], "")[1:]
                r += [(1 << 40) + 256 * x[1] + len(u)] + u
        return [len(r)] + r
    if isinstance(template, str):
        template = template.encode("latin-1")
    r = []
    for c in template:
        ch = chr(c)
        r.append(CLS[ch] if ch in cls else c)
    return [len(r)] + r


def show(t):
    if isinstance(t, str):
        return t
    r = " ".join(x if isinstance(x, str) else "(%s)*%d" % x for x in t.pieces)
    return r if len(r) < 300 else r[:100] + " ... " + r[-100:]


def anys(J, h, e, pre, lo, hi, thi, reach_bad=(), reach_good=(), t=60, v="sse", first_good=2):
    """every byte string of each length; lengths above hi only in the thorough tier"""
    r = []
    for n in range(lo, thi + 1):
        r.append(J(h, e, list(pre) + T("?" * n), t=t if n <= hi else 900, tier="q" if n <= hi else "t", w=8 if n > 6 else 2, v=v,
                   reach=list(reach_bad) + (list(reach_good) if n >= first_good else []), name="%s any %d" % (e, n), bound="every document of %d bytes" % n))
    return r


def temps(J, h, e, pre, items, t=60, v="sse", reach=(), tier="q", w=8):
    """templates: (text, classes) with the characters of `classes` symbolic"""
    r = []
    for it in items:
        if isinstance(it, (str, Rep)):
            it = (it, "?")
        text, cls = it[:2]
        inst = 400000000 if isinstance(text, Rep) else None
        rc = it[2] if len(it) > 2 else reach
        r.append(J(h, e, list(pre) + T(text, cls), t=t, v=v, reach=rc, tier=tier, w=w, inst=inst, name="%s %s" % (e, show(text)), bound="every document %s with %s symbolic" % (show(text), cls)))
    return r


STRICT = ['[?,?????]', '[??????,?]', '{"a":??????}', '{"?":1,"?":2}', '{"a"???1}', '{"a":1???"b":2}', '{???"a":1}', '[1??2??3?]', '[[?],{?}]????', '????[]????', '????{}????',
          '{"a":{"b":[?,?]},"c":??}', '[tru?,fals?,nul?]', '[?rue,?alse,?ull]', '[t?ue,f?l?e,n?l?]', '["\\u????"]', '["\\????"]', '{"\\??":1,"??":2}', '[0.5e+1???]', '[12????34]',
          '{"ab":1,"a?":2,"??":3}', '{"":?,"":?}', '[[[[????]]]]', '{"a":[{"b":????}]}']
NUMS = [("[NNNNNNN]", "N"), ("[-?.??e??]", "?"), ("[1NNNNNN,2]", "N"), ('{"a":NNNNNN}', "N"), ("[-N.NNeNN]", "N")]


# sizes beyond the small ones: many elements, many members, deep nesting, long texts, whitespace and numbers
BIG = ['[' + ','.join(str(i % 10) for i in range(40)) + ',??]', '{' + ','.join('"k%x":%d' % (i, i) for i in range(16)) + ',"k?":?}', '{"?":0,' + ','.join('"%c":[]' % (97 + 2 * i) for i in range(12)) + ',"?":{}}', '[' * 30 + '??' + ']' * 30, '{"a":' * 20 + '?' + '}' * 20,
       '{"a":[' * 10 + '?,?' + ']}' * 10, '["' + 'abcdefghij' * 9 + '?' + 'klmno' * 6 + '??"]', '{"' + 'k' * 70 + '?":1,"' + 'k' * 70 + '?":2}', '[' + ' \t\n\r' * 10 + '?' + ' ' * 30 + ',1]', '[-' + '1234567890' * 6 + '?.' + '1234567890' * 3 + 'e+12345?]',
       '["' + '\\u00e9\\uD83D\\uDE00x' * 5 + '\\u??00"]', '["' + '\\n\\"x' * 20 + '?"]', '[' + '"abcdefghijklmnopqr","",' * 6 + '"?"]', '[[[1,2],[3,4]],[[5,?],[{"a":{"b":{"c":{"d":{"e":[?]}}}}}]]]']
VBIG = ['[' + ','.join('"e%d"' % i for i in range(20)) + ',"?"]', '{' + ','.join('"k%x":%d' % (i, i) for i in range(14)) + ',"k?":"?"}', '[{"a":[{"?":[{"b":["?",{"c":[[[*]]]}]}]}]}]', '["' + 'abcdefghij' * 9 + '?' + 'klmno' * 5 + '?"]', '{"' + 'k' * 60 + '?":["?"]}',
        '["\x01\x1f\n\t\b\f\r\x7f\xc3\xa9/\\?' + 'x\x02' * 10 + '"]', '[' + '[],{},"",' * 8 + '*]', '[' * 16 + '"?"' + ']' * 16, '{"?":' * 3 + '{"a":' * 8 + '*' + '}' * 11]


# past 8-bit and 16-bit counters
HUGE = [Rep('["', ("abcdefghijklm", 20), '?n"]'), Rep('["', ("abcdefghijklmnop", 4100), 'a?"]'), Rep('["', ("\\n", 300), '\\?"]'), Rep('{"', ("k", 300), '":?}'), Rep('{"', ("kl", 33000), '":1,"', ("kl", 32999), 'k?":2}'), Rep('[', ("1234567890", 30), '?]'),
        Rep('[-', ("7", 66000), '?]'), Rep('[0.', ("7", 300), 'e1?]'), Rep('[', ("1,", 300), '?]'), Rep('[', ("1,", 66000), '?]'), Rep('[', ('"",', 258), '"?"]'), Rep('{', *['"%d":%d,' % (i, i) for i in range(260)], '"?5":?}'), Rep(("[", 260), "?", ("]", 260)),
        Rep(("[", 1100), "?", ("]", 1099), "?"), Rep(('{"a":', 300), "?", ("}", 300)), Rep(('[{"":', 150), "[?]", ("}]", 150)), Rep((" ", 300), "[", ("\t\n", 300), "?", (" ", 70000), "]", ("\r", 300))]


def c01(J):
    r = anys(J, "c01", "accept", [], 0, 9, 11, ["malformed"], ["well formed"])
    r += temps(J, "c01", "accept", [], STRICT + NUMS)
    r += temps(J, "c01", "accept", [], [('["SSSSSSSSSSSS"]', "S"), ('["abcdefghijklmnop??????"]', "?")])
    r += temps(J, "c01", "accept", [], BIG, w=2)
    r += temps(J, "c01", "accept", [], HUGE, w=1, t=100)
    return r


def c02(J):
    r = anys(J, "c02", "jsonc", [], 0, 8, 10, ["malformed"], ["well formed", "JSON as well"])
    com = [('[EEEEEEEE]', "E"), ('EEEEE[]', "E"), ('[]EEEEEEE', "E"), ('[1EEEEEE2]', "E"), ('{"a"EEEEE:1}', "E"), ('{"a":EEEEE1}', "E"), ('{"a":1EEEEE"b":2EEE}', "E"), ('{EEEEE"a":1}', "E"),
           ('{"a":{}EEEE}EEE', "E"), ('[[1EEE]EEE]EEE', "E"), ('[1,EEEEEE]', "E"), ('["a/EE*"EEEEE]', "E"), ('//EEEEEE[]', "E"), ('/*EEEEEE*/[]', "E"),
           '/*????*/[]', '//????\n[]', '[]//????', '[]/*????*/', '[1,/*???*/2,?]', '{"a":1,?}', '[1,???]', '{"a":1???}', '{???}', '[???]', '[//??\n1]']
    r += temps(J, "c02", "jsonc", [], com + ['[?,?????]', '{"a":?????}', '{"?":1,"?":2,?}'])
    r += temps(J, "c02", "jsonc", [], BIG[1:6] + [('[' + '/*c*/ //x\n' * 6 + 'EE1' + '/***/' * 4 + 'E]', "E"), ('[' * 10 + '1EE' + ',]' * 9 + 'E]', "E"), ('{"a":{"b":[{"c":[1,E],E},E],E},E}', "E"), ('[1,/*' + 'abc * / // [] " ' * 4 + 'EE*/2]EE', "E"), ('{"a//b":"/*EE*/"EE,"c":1,}//EE', "E")], w=2)
    r += temps(J, "c02", "jsonc", [], [HUGE[0], HUGE[8], HUGE[12], HUGE[14], HUGE[16], Rep("/*", ("abc * ", 60), "??[]"), Rep("[]//", ("x", 300), "??"), Rep("/*", ("-", 70000), "?/[]"), Rep("[1//", ("-", 70000), "?,\n2]"), Rep("[", ("/**/", 300), "?]"), Rep("[", ("/**/", 20000), "?]"), Rep("[", ("//\n", 300), "?]"),
                                      Rep("[", ("1/*c*/,//\n", 300), "?]"), Rep('{', *['"%d"/**/:1,' % i for i in range(260)], '?}')], w=1, t=100)
    r += temps(J, "c02", "jsonc", [], [('EEEEEEEE[EEEE]EEEEEE', "E"), ('{"a":[1EEEEEEE,2]EEEEEE}', "E"), '????[??]????', '{"a"????:????1}'], tier="t", t=300)
    return r


def c03(J):
    r = anys(J, "c03", "tree", [], 2, 8, 10, [], ["well formed"])
    g = ["well formed"]
    r += temps(J, "c03", "tree", [], ['[?,?????]', '[??????,?]', '{"a":??????}', '{"?":1,"?":2}', '{"ab":???,"ba":???}', '[1??2??3?]', '[[?],{?}]', '{"a":{"b":[?,?]},"c":??}', '{"a":[{"b":????}]}',
                                      '["?",?,"?",[?],{"?":?}]', '{"?":"?","??":"?"}', '[true,false,null,?,{"?":[?]}]', '[[[[????]]]]', '{"?":{"?":{"?":?}}}', '[[?,?],[?,?],[?]]', '{"x":1?,"?":[2?],"a":{"y":3?}}'], reach=g)
    r += temps(J, "c03", "tree", [], [("[NNNNNNN]", "N"), ("[-?.??e??]", "?"), ("[1NNNNN,2N]", "N"), ('{"a":NNNNN,"b":NN}', "N"), ('{"?":1,"?":2,"?":3,"?":4}', "?"), ('[WW1WW,WW2WW]', "W"), ('W{W"a"W:W1W,W"b"W:W[W]W}W', "W")], reach=g)
    r += temps(J, "c03", "tree", [], BIG, w=2, reach=g)
    r += temps(J, "c03", "tree", [], HUGE, w=1, reach=g, t=100)
    r += temps(J, "c03", "tree", [], ['{"??":?,"??":?,"??":?}', '[??????????]', '{"?":????,"?":????}', '[[????],[????]]'], tier="t", t=300)
    return r


def c04(J):
    g, b = ["well formed"], ["malformed"]
    gb = g + b
    r = anys(J, "c04", "text", [], 4, 6, 8)
    e = [('["????????"]', "?", gb), ('["\\u????"]', "?", gb), ('["\\u????a"]', "?", gb), ('["\\uHHHH\\uHHHH"]', "H", gb), ('["\\uD8HH\\u????"]', "H?", gb), ('["\\u????\\uDC00"]', "?", gb), ('["\\uDBFF\\uHHHH"]', "H", gb),
         ('["\\uD83D?\\uDE00"]', "?", b), ('["\\uD83D\\u00HH\\uDE00"]', "H", b), ('["\\uD83D\\?\\uDE00"]', "?", b), ('["\\uD8HH\\uDCHH\\uHHHH"]', "H", gb), ('["\\uHHHH\\uDCHH"]', "H", b), ('["\\uD800\\uHHHH\\uDC00"]', "H", b),
         ('["\\????"]', "?", gb), ('["\\?\\?\\?"]', "?", gb), ('["?\\u00??"]', "?", gb), ('{"\\u????":1}', "?", gb), ('{"?\\?":1,"\\u00HH":2}', "?H", gb), ('["\\uD83D', "?", b), ('["\\uD8?', "?", b), ('["\\u???', "?", b), ('["\\?', "?", b)]
    r += temps(J, "c04", "text", [], e)
    # the block scanner: literals of one block and more, escapes and ends at every offset
    long = []
    for k in (12, 14, 15, 16, 17, 28, 31, 32):
        long.append(('["%s????"]' % ("abcdefghijklmnopqrstuvwxyz012345"[:k]), "?", gb))
        long.append(('["%s\\u???? "]' % ("abcdefghijklmnopqrstuvwxyz012345"[:k]), "?", gb))
        long.append(('["%s\\uD8H0\\uHHHH%s"]' % ("abcdefghijklmnopqrstuvwxyz012345"[:k], "x" * 20), "H", gb))
        long.append(('["\\uD83D\\uDE0H%s?"]' % ("abcdefghijklmnopqrstuvwxyz012345"[:k]), "H?", gb))
        long.append(('["\\uD83DPP%s\\uDE0H"]' % ("abcdefghijklmnopqrstuvwxyz012345"[:k]), "HP", b))

    r += temps(J, "c04", "text", [], long, w=2)
    r += temps(J, "c04", "text", [], [('["PPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPP"]', "P", g), ('["SSSSSSSSSSSS"]', "S", gb), ('{"SSSSSS":1,"SSSSS":2}', "S", gb)], w=4)
    r += temps(J, "c04", "text", [], [(Rep('["', ("\\u00e9", 300), '\\u????"]'), "?", gb), (Rep('["', ("\\n", 33000), '\\?"]'), "?", gb), (Rep('["', ("abcdefghijklm", 25), '\\u00H?"]'), "?H", gb), (Rep('["', ("x", 66000), '\\uD8H0\\uDC0H"]'), "H", g), (Rep('["', ("\\uD83D\\uDE00", 70), '\\uD83D\\u????"]'), "?", gb),
                                      (Rep('{"', ("\\\\", 300), '\\?":1}'), "?", gb)], w=1, t=100)
    r += temps(J, "c04", "text", [], [('["\\u????\\u????"]', "?", gb), ('["?????????????????????"]', "?", gb), ('["\\uHHHH\\uHHHH\\uHHHH"]', "H", gb), ('["\\u????"', "?", b), ('["\\u????\\u???"]', "?", b), ('["SSSSSSSSSSSSSSSSS"]', "S", gb)], tier="t", t=600)
    return r


WAYS = {1: "u32", 2: "u64", 3: "SSE", 5: "string_view", 6: "vector<char>", 7: "deque<char>", 8: "default string", 9: "const char*", 11: "vector<unsigned char>", 12: "string_view u32", 13: "string_view u64", 14: "deque<char> across its chunks"}


def c05(J):
    r = []
    both = ["accepted", "refused"]
    for how in (1, 2, 3, 5, 6, 7, 8, 9, 11, 12, 13, 14):
        for jc in (0, 1):
            it = [('[????]', "?", both)] + ([('??????', "?", both)] if not jc else [('[1EEEEE]', "E", both)])
            # long enough that every implementation uses its blocks
            if how not in (7, 14) or not jc:
                it += [(('["????"          ]' if how in (2, 13) else '["?????"          ]' if how in (1, 12, 7, 14) else '["??????"          ]'), "?", both)]
            if not jc:
                it += [('["abcdefg\\u????hijk?lmnopqrstuvwxyz?0123"]', "?", both), ('{"abcdefghijklmno????":"qrstuvw??"}', "?", both), ('["\\uD83D?bcdefghijklmno\\uDE00qrstu"]', "?", ["refused"]),
                       ('["\\uD83D\\uDE0Hbcdefghijklmnopqrstuvw?"]', "?H", both), ('["PPPPPPPPPPPPPPPPPPPPPPPP"]', "P", ["accepted"])]
            r += temps(J, "c05", "same", [how, jc], it, w=1 if how not in (7, 14) else 2)
    for how in (1, 2, 3, 7, 9, 11):
        r += temps(J, "c05", "same", [how, 0], [BIG[1], BIG[5], BIG[6], BIG[7], BIG[10]], w=1)
        r += temps(J, "c05", "same", [how, 0], [HUGE[0], HUGE[2], HUGE[3], HUGE[8], HUGE[12], HUGE[15]] + ([HUGE[1], HUGE[16]] if how in (3, 7) else []), w=1, t=100)
    # fixed-size arrays
    for n, t in ((4, '????'), (6, '[????]'), (8, '["????"]'), (20, '["??????"          ]'), (24, '["abcdefghijklmnop????"]')):
        r += temps(J, "c05", "same", [10, 0], [(t, "?", ["refused"])], w=1)
    for n in (5, 6, 7):
        r.append(J("c05", "same", [2, 0] + T("?" * n), w=2, reach=both, name="same u64 any %d" % n, bound="every document of %d bytes" % n))
        r.append(J("c05", "same", [7, 0] + T("?" * n), w=2, reach=both, name="same deque any %d" % n, bound="every document of %d bytes" % n))
    r += temps(J, "c05", "same", [4, 0], [('["????                          ????"]', "?", both), ('["abcdefghijklmnopqrstuvwxyz0123??????"]', "?", both), ('["PPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPP"]', "P", ["accepted"]),
                                          ('["abcdefghijklmnopqrstuv\\u????wxyz0123456789abcdefghijklmnop?rstuvwxyz"]', "?", both)], v="avx2", w=2, t=40)
    r += temps(J, "c05", "same", [8, 0], [('["????            "]', "?", both), ('["abcdefghijklmno????"]', "?", both)], v="sse2", w=2)
    r += temps(J, "c05", "same", [8, 0], [('["????            "]', "?", both), ('["abcdefghijklmno????"]', "?", both)], v="none", w=2)
    for how in (1, 2, 3, 5, 7):
        r += temps(J, "c05", "same", [how, 0], [('["SSSSSSSSSSSSSSSSSSSSSSSS"]', "S", both), ('????????', "?", both)], tier="t", t=300)
    return r


def c06(J):
    r = []
    for how in (0, 1):
        r += anys(J, "c06", "safe", [how], 0, 9 if how == 0 else 8, 11 if how == 0 else 10, ["refused"], ["accepted"])
    # every cut of documents that use each construct, the last bytes symbolic
    for full in ('{"key":[-1.5e+3,true,false,null,"a\\u00e9\\uD83D\\uDE00b"]}', '["abcdefghijklmnopqrstuvwxyz0123456789"]', '[[1,2],{"a":{"b":[]}}]'):
        for k in range(1, len(full) + 1):
            t = full[:max(0, k - 3)] + "?" * min(3, k)
            r.append(J("c06", "safe", [0] + T(t), t=30, w=1, reach=["refused"], name="safe cut %s" % t, bound="%s with ? symbolic" % t))
            if "/" not in full and k % 4 == 0:
                r.append(J("c06", "safe", [1] + T(t), t=30, w=1, reach=["refused"], name="safe jsonc cut %s" % t, bound="JSONC, %s with ? symbolic" % t))
    for full in ('[1,/* c */2]// x\n', '//a\n[/**/]/* ** */'):
        for k in range(1, len(full) + 1):
            t = full[:max(0, k - 3)] + "?" * min(3, k)
            r.append(J("c06", "safe", [1] + T(t), t=30, w=1, reach=["refused"], name="safe jsonc cut %s" % t, bound="JSONC, %s with ? symbolic" % t))
    # blocks that end exactly at, just before and just after the end of the buffer
    r += temps(J, "c06", "safe", [0], BIG, w=1)
    r += temps(J, "c06", "safe", [0], HUGE, w=1, t=100)
    r += temps(J, "c06", "safe", [0], [Rep("?", *HUGE[i].pieces[:-1]) for i in (0, 2, 3, 5, 8, 11, 12, 13)], w=1, t=100, reach=["refused"])
    r += temps(J, "c06", "safe", [1], [Rep("[", ("/*", 300), "??"), Rep("[//", ("x", 300), "?"), HUGE[8], HUGE[12]], w=1, t=100, reach=["refused"])
    r += temps(J, "c06", "safe", [0], [b[:-k] + '?' for b in BIG[3:11] for k in (2, 7)], w=1, reach=["refused"])
    for how, step in ((2, 4), (3, 8), (0, 16), (4, 0)):
        for n in (step, step + 1, step + 2, step + 3, 2 * step + 1, 2 * step + 2, 2 * step + 3, 2 * step + 4):
            if n < 2:
                continue
            r.append(J("c06", "safe", [how] + T('["' + ("?" * (n - 2) if n < 9 else "??" + "abcdefghijklmnopqrstuvwxyz0123456789"[: n - 8] + "????")), t=30, w=1, reach=["refused"], name="safe blocks %d/%d" % (step, n), bound="[\" and text to %d bytes, blocks of %d" % (n, step)))
    r += temps(J, "c06", "safe", [0], [('["\\uD83D????????', "?"), ('["\\uD83D????bcdefghijklmnop????', "?"), ('["abcdefghijklmnopqrstuvwx\\?????', "?"), ('{"????????":', "?"), ('{"a":1,"a":???}', "?"), ('[{"a":[?],"b":{"c":"?"}},?]', "?")], reach=["refused"], w=2)
    for n in (33, 34, 35, 40, 66):
        r.append(J("c06", "safe", [0] + T('["' + "?" * 2 + "abcdefghijklmnopqrstuvwxyz01234567890123456789abcdefghijklmnopqrst"[: n - 4 - 4] + "????"), t=30, v="avx2", w=1, reach=["refused"], name="safe avx2 %d" % n, bound="%d bytes, blocks of 32" % n))
    r += temps(J, "c06", "safe", [0], [('["??????????????????????????????', "?")], tier="t", t=600)
    return r


def trapped(f, keep=lambda j: True):
    """the jobs of f, and those kept once more with undefined behaviour trapped"""
    def g(J):
        r = f(J)
        return r + [dict(j, v="ub", name="ub " + j["name"]) for j in r if j["v"] == "sse" and j["tier"] == "q" and keep(j)]
    return g


def c20(J):
    r = []
    for fl in range(4):
        for st in (0, 1):
            for n in (0, 1, 2, 3, 4, 5, 6):
                if st and n not in (3, 5):
                    continue
                r.append(J("c20", "stream", [fl, st] + T("?" * n), t=60, v="stream", w=1 if n < 6 else 4, reach=["refused"] + (["byte order mark"] if n >= 3 else []), name="stream f%d s%d any %d" % (fl, st, n), bound="every stream of %d bytes, flags %d, read position %s" % (n, fl, "moved" if st else "at the start")))
            it = [("???[]", "?"), ("\xef\xbb\xbf?????", "?"), ("\xef\xbb?[1]", "?"), ("\xef\xbb\xbf\xef\xbb\xbf[?]", "?"), ("???{\"a\":1}", "?"), ("[\"\xef\xbb\xbf\",????]", "?"), ("???/?/?\n[1]", "?")]
            r += temps(J, "c20", "stream", [fl, st], it, v="stream", w=1)
            # past the sizes in which streams are usually read
            for total in (255, 256, 511, 512, 1024, 4096, 8192, 65536):
                for d in (-1, 0, 1):
                    if (total.bit_length() + d + fl + 2 * st) % 4 == 0 or total == 4096 and not st:
                        r += temps(J, "c20", "stream", [fl, st], [Rep("???[", (" ", total + d - 8), "?1?]") if total < 9999 else Rep("?[", (" ", total + d - 5), "1?]"), Rep('["abcdef', ("abcdefg,", (total + d) // 8 - 2), "0123456789"[:(total + d) % 8], '123??"?]')] if (d + fl) % 2 else [Rep("\xef\xbb\xbf[1", ("\n", total + d - 10), "?,?]?")], v="stream", w=1, t=100)
    return r


def c22(J):
    r = []
    for v in ("sse", "sse2", "avx2"):
        for e in ["block_sse"] + (["block_u32", "block_u64", "bits32", "bits64", "endian"] if v == "sse" else []) + (["block_avx2"] if v == "avx2" else []):
            r.append(J("c22", e, t=120, w=2, v=v, reach=["a special byte"] if e.startswith("block") else ["end"], bound="full width"))
    for e in ["block_u32", "block_u64", "bits32", "bits64"]:
        r.append(J("c22", e, t=120, w=2, v="cxx20", reach=["a special byte"] if e.startswith("block") else ["end"], bound="full width, C++20 build"))
    r.append(J("c22", "block_neon", t=120, w=2, v="neon", reach=["a special byte"], bound="full width"))
    r.append(J("c22", "bits64", t=120, w=2, v="neon", reach=["end"], bound="full width"))
    return r

VHUGE = [Rep('["', ("abcdefghijklm", 20), '?"]'), Rep('["', ("abcdefghijklmnop", 4100), '?"]'), Rep('["', ("\n", 300), '?"]'), Rep('["', ("a\x1f", 4100), '?"]'), Rep('{"', ("k", 300), '":"?"}'), Rep('{"', ("kl\t", 300), '?":1}'), Rep('[', ("1234567890", 30), '?]'), Rep('[', ("1,", 300), '"?"]'), Rep('[', ("[],", 3000), '"?"]'),
         Rep('[', ('"",', 258), '"?"]'), Rep('{', *['"%d":%d,' % (i, i) for i in range(260)], '"?5":1}'), Rep(("[", 260), '"?"', ("]", 260)), Rep(('{"a":', 300), '"?"', ("}", 300)), Rep(('[{"":', 150), '["?"]', ("}]", 150))]
TREES = ['["????"]', '{"??":"??"}', '["?","?",["?"]]', '{"?":"?","?":"?"}', '["","?",{"":"?"}]', '{"?":{"?":["?",{"a":"?"}]}}', '{"??":1,"?":[n,t,f]}', '[[[]],{},{"a":{}},-1.5e3,0]', '[*,*]', '{"a":*,"b":[*]}',
         '{"?":1,"?":2,"?":3}', '["abcdefghijklmnopqrst???"]', '{"abcdefghijklmnopqrstuv?":["?abcdefghijklmnop?"]}']


def val(J, h, e, pre, items, cls="?", **k):
    return temps(J, h, e, pre, [(i, cls) if isinstance(i, (str, Rep)) else i for i in items], **k)


def c07(J):
    r = []
    e = ["end"]
    for st in (0, 1, 2):
        r += val(J, "c07", "roundtrip", [st, -1], TREES, reach=e, w=2)
    for ind in (-1, 3, 9):
        r += val(J, "c07", "roundtrip", [0, ind], VBIG, reach=e, w=1)
    for ind in (-1, 1):
        r += val(J, "c07", "roundtrip", [1 + ind, ind], VHUGE, reach=e, w=1, t=100)
    for ind in (0, 1, 4):
        r += val(J, "c07", "roundtrip", [1, ind], ['["??"]', '{"??":"?"}', '[["?"],{"?":{"?":[]}}]', '[*,{"a":*}]', '[1,[2,[3,[4,{"?":n}]]]]'], reach=e, w=1)
    r += val(J, "c07", "roundtrip", [0, -2], ['["?"]', '{"?":["?"]}', '[[],{},[[{"a":[1,2]}]]]', '[*]'], reach=e, w=1)
    r += val(J, "c07", "roundtrip", [0, -1], [('[NNNN]', "N"), ('{"a":-N.NeN}', "N")], reach=e, w=2)
    r += val(J, "c07", "roundtrip", [0, -1], ['["?????"]', '{"???":"???","??":1}', '["?????????????????????????????"]'], reach=e, tier="t", t=600)
    return r


def c08(J):
    r = []
    e = ["end"]
    for st in (0, 1, 2):
        r += val(J, "c08", "text", [st, 4 - st], TREES, reach=e, w=2)
    for ind in (0, 3, 9):
        r += val(J, "c08", "text", [0, ind], VBIG, reach=e, w=1)
    r += val(J, "c08", "text", [0, 2], VHUGE, reach=e, w=1, t=100)
    for ind in (40, 70, 255, 256, 300):
        r += val(J, "c08", "text", [0, ind], ['[1,["?",{"a":{"?":[*]}}]]'], reach=e, w=1, t=100)
    r += val(J, "c08", "text", [0, 66000], ['[["?",{"?":[]}]]'], reach=e, w=1, t=100)
    r += val(J, "c08", "text", [0, -2], ['["?"]', '{"?":["?"]}', '[[],{},[[{"a":[1,2]}]]]', '[*,{"b":*}]', '[1,[2,[3,[4,{"?":n}]]]]', '*'], reach=e, w=1)
    for ind in (-1, 0, 2):
        r += val(J, "c08", "wellformed", [0, ind], ['["??"]', '{"??":"?"}', '[["?"],{"?":{"?":[]}}]', '[*,{"a":*}]', '{"?":1,"?":2}'], reach=e, w=1)
    for own in (0, 1):
        r += val(J, "c08", "shift", [0, own], ['["?"]', '{"?":[*]}', '[]', '{}'], reach=e, w=1, v="stream")
    r += val(J, "c08", "text", [0, 2], ['["?????"]', '{"???":"???","??":1}'], reach=e, tier="t", t=600)
    return r



MAXD = {0: (10, 10), 1: (10, 0), 2: (19, 19), 3: (20, 0), 4: (19, 19), 5: (20, 0)}


def c09(J):
    r = []
    for ty in range(6):
        for neg in (0, 1):
            top = MAXD[ty][neg]
            for k in range(1, top + 1):
                r.append(J("c09", "write_int", [ty, k, neg], w=1, reach=["end"], name="write type %d, %s%d digits" % (ty, "-" if neg else "", k), bound="every number of %d digits%s of integer type %d" % (k, ", negative" if neg else "", ty)))
        both = ["fits", "refused"]
        long = MAXD[ty][0]
        it = [("NNNNN", "N", both), ("?????", "?", both), ("D" * (long - 1), "D", ["fits"]), ("D" * long, "D", both), ("D" * (long + 1), "D", ["refused"]), ("-" + "D" * MAXD[ty][1] if MAXD[ty][1] else "-DDD", "D", both if MAXD[ty][1] else ["refused"]),
              ("-" + "D" * (long + 1), "D", ["refused"]), ("DDDDeDD", "D", ["refused"]), ("DDD.DDD", "D", ["refused"]), ("D" * (long - 3) + "?" * 3, "D?", both), ("-" + "D" * (long - 3) + "??", "D?", both if MAXD[ty][1] else ["refused"]), ("D" * 40, "D", ["refused"])]
        if ty > 3:
            it = it[:5]
        r += temps(J, "c09", "read_int", [ty], it[:-1], w=1, t=100)
        r += temps(J, "c09", "read_int", [ty], it[-1:], w=1, t=600, tier="t")
    return r


SCALARS = [(0, -1, '*'), (0, 6, ("NNNN", "N")), (13, 14, ("NNNN", "N")), (1, 6, ("-DDD", "D")), (1, 1, ("214748DDDD", "D")), (1, 1, ("-214748DDDD", "D")), (2, 2, ("42949672DD", "D")), (3, 3, ("922337203685477580D", "D")), (13, 14, ("214748DDDD", "D")),
           (4, 4, ("1844674407370955161D", "D")), (10, 14, '"??"'), (13, 14, ('"?ed"', "?")), (13, 14, ('"gr??n"', "?")), (13, 14, ('"dark?blue"', "?")), (13, 14, ('"big_???"', "?")), (13, 14, '"???"'), (7, 9, '1e9999'), (7, 9, '-1e9999'), (7, 9, '1e300'), (7, 9, '0.5'), (8, 9, '4.9406564584124654e-324'), (7, 9, '-1.4e-45'), (9, 9, '3.7e-4951'), (9, 9, '1.1e4932'), (9, 9, '1.8e308'), (7, 9, '1E5'), (0, 9, '-0'),
           (15, -1, '{"x":*,"t":*}'), (15, -1, '{"x":*}'), (15, 15, '{"?":1,"?":"?"}'), (15, -1, '{"t":*}'), (15, -1, '{"x":1,"x?":2}'), (15, -1, '[*]'), (15, 15, ('{"x":NNNN}', "N"))]
WRAPPED = [(0, -1, '*'), (0, 6, ("NNNN", "N")), (8, 10, ("NNNN", "N")), (0, 10, '"???"'), (0, 10, ('"?ed"', "?")), (4, 10, '[*]'), (4, 10, '[*,*]'), (6, 10, ('{"?":*}', "?")), (6, 10, ('{"?":*,"?":*}', "?")), (6, 8, ('["??",n,NN]', "?N")), (8, 8, '{"x":*,"t":*}'), (6, 6, ('{"?":NN,"a":N}', "?N")), (6, 6, ('[NN,1]', "N"))]
SEQS = [(0, -1, '*'), (0, -1, '[*]'), (0, 8, '[*,*]'), (9, 18, '[*,*]'), (2, 5, '["??","?"]'), (2, 14, '["?","?","?"]'), (0, 0, ('[NNN,NN]', "N")), (3, 3, ('[NN,N,N]', "N")), (6, 9, ('[NN,N]', "N")), (7, 7, ('[[NN,N],[N],[]]', "N")), (9, 18, '[1,*,t]'), (12, 14, '[*,"?",*]'), (12, 14, ('[NN,"?"]', "N?")), (13, 13, '[n,["?","?"]]'),
        (13, 18, '[[*],[*]]'), (16, 17, ('[{"x":*,"t":*},{"x":1}]', "?")), (17, 17, ('[["?",NN],["?",1]]', "?N")), (18, 18, ('[[NN],[NN]]', "N")), (6, 18, '[[1],[2],[3]]'), (11, 15, '[]'), (16, 17, '[["a",*],*]'),
        (0, 8, '[1,2,3,4,5,6,7,8,9,*]'), (2, 5, '["a","b","c","d","e","f","g","?","?"]'), (0, 3, ('[N,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,NN]', "N")), (7, 7, '[[1,2,3,4,5],[],[6,7],[8,*]]'), (17, 17, '[["a",1],["b",2],["c",3],["d",4],["?",*]]')]
MAPS = [(0, -1, '*'), (0, -1, '{"a":*}'), (0, -1, '{"?":*,"?":*}'), (0, 1, ('{"??":NN,"?":N}', "?N")), (2, 2, '{"a":"???","b":"?"}'), (6, 6, '{"??":"??","":n}'), (4, 4, ('{"a":[[1,"?"],[NN,"?"]],"b":[]}', "?N")), (4, 4, '{"a":[[*,*]]}'), (5, 5, ('{"a":{"?":N,"?":N},"b":{}}', "?N")), (5, 5, '{"a":{"b":*}}'),
        (7, 7, '{"a":{"x":*,"t":*}}'), (8, 8, '{"?":[*],"b":[1]}'), (8, 8, ('{"?":[NN]}', "?N")), (3, 4, '{"?":"?","a":[["?"]]}'),
        (0, 1, '{"a":1,"b":2,"c":3,"d":4,"e":5,"f":6,"g":7,"h":8,"?":*}'), (8, 8, '{"a":[1],"b":[4],"c":[5],"d":[6],"?":[*]}'), (5, 5, '{"a":{"p":1,"q":2,"r":3},"b":{"s":4,"t":5},"?":{"u":*}}')]
SEQS += [(0, 3, (Rep('[', ("7,", 300), '*]'), "?")), (0, 2, (Rep('[', *['%d,' % i for i in range(260)], '*]'), "?")), (3, 3, (Rep('[', *['%d,' % i for i in range(60)], '*]'), "?")), (2, 4, (Rep('[', *['"e%d",' % i for i in range(260)], '"?"]'), "?")), (5, 5, (Rep('[', *['"e%d",' % i for i in range(50)], '*]'), "?")), (6, 7, (Rep('[', ('[1,2],', 280), '[NN]]'), "N")), (7, 7, (Rep('[[1],[', ('1,', 300), '*]]'), "?")), (16, 17, (Rep('[', ('["a",1],', 280), '["?",NN]]'), "?N"))]
MAPS += [(0, 3, (Rep('{', *['"k%d":%d,' % (i, i) for i in range(260)], '"?":1}'), "?")), (2, 2, (Rep('{', *['"k%d":"",' % i for i in range(260)], '"k":*}'), "?"))]
WRAPPED += [(4, 10, (Rep('[', ('t,', 300), '*]'), "?")), (6, 6, (Rep('[', ('1,', 300), 'NN]'), "N"))]
WRAPPED += [(11, 11, ("-NNN", "N")), (11, 11, ("NNNN", "N")), (11, 11, ("42949672DD", "D")), (11, 11, ("-21474836DD", "D")), (11, 13, '"?"'), (13, 13, '"?ed"'), (13, 13, ("NNNN", "N")), (14, 14, '[*,*]'), (14, 14, '[*]'), (14, 14, ('[NN,"?"]', "?N")),
            (14, 14, '[*,"?",*]'), (15, 15, '{"x":*,"t":*}'), (15, 15, '{"?":*}'), (15, 15, '{"x":*,"?":*}')]
TYPED = [SCALARS, WRAPPED, SEQS, MAPS]


def typed(J, e, reach, skip=lambda g, lo, hi, t: False, pre=(), w=2):
    r = []
    for g, items in enumerate(TYPED):
        for lo, hi, t in items:
            text, cls = (t, "?") if isinstance(t, (str, Rep)) else t
            if skip(g, lo, hi, show(text)):
                continue
            r.append(J("ty_%d" % g, e, [lo, hi] + T(text, cls), t=60, w=w, inst=400000000 if isinstance(text, Rep) else None, reach=reach, name="%s %d.%d-%d %s" % (e, g, lo, hi, show(text)), bound="types %d to %d of list %d, every value %s with %s and * symbolic" % (lo, hi, g, show(text), cls)))
    return r


def c10(J):
    return typed(J, "isas", ["end"])


def floaty(g, lo, hi, t):
    # printing floating-point numbers is not encoded
    return (g == 0 and lo >= 7 and hi == 9) or (t, lo) in (("NNNN", 13), ("214748DDDD", 13), ("NNNN", 8), ('["??",n,NN]', 6), ('[["a",*],*]', 16)) or ("DDD" not in t and "D" in t and g == 0 and len(t) > 18)


def c16(J):
    return typed(J, "from", ["end"]) + typed(J, "there", ["end"], skip=floaty)


OWNS = ['*', '[*,"?"]', '{"a":*,"b":"?"}', '[["?",1],{"a":[]}]', '{"k":{"a":["?"]},"l":[2]}', '["abcdefghijklmnopqrstuvwx?"]']


def c11(J):
    r = []
    for k in range(8):
        r += val(J, "c11", "copies", [k % 3, k], OWNS, reach=["end"], w=2)
    for k in range(7):
        r += val(J, "c11", "moves", [k % 3, k], OWNS, reach=["end"], w=2)
    for k in range(8):
        r += val(J, "c11", "copies", [k % 3, k], [VBIG[k], VBIG[2]], reach=["end"], w=1)
    for k in range(7):
        r += val(J, "c11", "moves", [k % 3, k], [VBIG[k + 1], VBIG[2]], reach=["end"], w=1)
    for k in range(8):
        r += val(J, "c11", "copies", [k % 3, k], [VHUGE[(4, 0, 1, 3)[k % 4]]], reach=["end"], w=1, t=100)
    for k in range(7):
        r += val(J, "c11", "moves", [k % 3, k], [VHUGE[6 + k], VHUGE[1]], reach=["end"], w=1, t=100)
    for k in range(15):
        its = [i for i in OWNS if i != '*' or k in (0, 1, 2, 3, 6, 13)]
        its = [i for i in its if (k not in (7, 8) or i[0] == '[') and (k not in (9, 10, 12) or i[0] == '{')]
        if k in (4, 5):
            its = ['[[*],[]]', '[["?",[t]],1]', '{"a":{"b":*}}', '{"a":{"b":{"?":1}},"c":{}}', '[{"a":[*]}]']
        r += val(J, "c11", "overlaps", [k % 3, k], its, reach=["end"], w=2)
    return r


def c12(J):
    r = []
    for k, lo, hi, tier in ((1, 0, 9, "q"), (1, 15, 17, "q"), (1, 32, 33, "q"), (1, 255, 257, "q"), (1, 300, 300, "q"), (2, 0, 5, "q"), (3, 0, 0, "q"), (3, 1, 3, "t"), (2, 6, 8, "t"), (2, 16, 17, "t"), (4, 0, 0, "t")):
        for n in range(lo, hi + 1):
            r.append(J("c12", "ops", [k, n], inst=400000000 if n > 100 else None, t=120 if tier == "q" else 600, tier=tier, w=8 if k > 1 else 2, reach=["end", "outside"] + (["inside"] if n or k > 0 else []), name="ops %d on %d" % (k, n),
                       bound="every sequence of %d operations on an array of %d elements, every position%s" % (k, n, " near the ends and near 256" if n > 100 else "")))
    return r


def c13(J):
    r = []

    def j(e, k, lens, n, tier="q", t=120, bulk=0):
        r.append(J("c13", e, [k, len(lens)] + list(lens) + [n, bulk], t=t, tier=tier, inst=400000000 if bulk else None, w=8 if k > 1 else 2, reach=["end", "present", "absent"] if k or n else ["end"], name="%s %d keys %s, %d+%d members" % (e, k, lens, n, bulk),
                   bound="every sequence of %d operations with keys of lengths %s, the first %d of them and %d others members at first" % (k, lens, n, bulk)))
    for lens in ((1, 1), (0, 1), (2, 2), (1, 2), (3, 3), (20, 1), (20, 19), (5, 0)):
        j("ops", 1, lens, 2)
    j("ops", 1, (1, 1, 1), 3)
    j("ops", 1, (1, 1, 1), 2)
    j("ops", 1, (1, 100), 2, bulk=255)
    j("ops", 1, (100, 1), 1, bulk=300)
    j("ops", 1, (100,) * 6 + (1,), 6)
    j("ops", 1, (100,) * 16 + (1,), 16)
    for lens in ((300, 300), (300, 299), (4096, 1)):
        j("ops", 1, lens, 2)
    j("ops", 1, (100,) * 9 + (2,), 10, "t")
    j("ops", 2, (0, 1), 1)
    j("ops", 2, (1, 1), 0)
    j("insertions", 2, (1, 1), 1)
    j("insertions", 2, (1, 1, 1), 0)
    j("ops", 1, (1, 2, 1, 1), 4, "t", 600)
    j("ops", 2, (1, 1), 2, "t", 900)
    j("ops", 2, (1, 1, 1), 3, "t", 900)
    j("insertions", 3, (1, 0), 0, "t", 900)
    return r


MIDS = ['1', '"s"', 'n', 't', '""', '[]', '{}', '-0.5']


def chained(pattern, n, leaf, mid=0):
    """a document in which a chain of keys and positions (bit i of pattern: a key) leads to leaf, and alternatives on the way"""
    t = leaf
    for i in reversed(range(n)):
        other = '*' if i == n - 1 or mid == '*' else MIDS[(mid + i) % len(MIDS)]
        t = '{"?":%s,"a":%s}' % (t, other) if pattern >> i & 1 else '[%s,%s]' % (other, t)
    return t


def c14(J):
    r = []
    leaf = {("c14", 0): "NN", ("c14", 1): '"?"', ("c14", 2): "*", ("c14b", 0): "*", ("c14b", 1): '"??"', ("c14b", 2): '"??"', ("c14b", 3): "*", ("c14b", 4): "*", ("c14b", 5): "[NN,*]", ("c14b", 6): "*", ("c14b", 7): "NN", ("c14b", 8): '"?ed"', ("c14b", 9): "*"}
    for h, tys in (("c14", range(3)), ("c14b", range(10))):
        for ty in tys:
            for style in (0, 1):
                for n in (1, 2, 3):
                    if n == 3 and (style or h == "c14b"):
                        continue
                    for pat in range(1 << n):
                        if h == "c14b" and style == 1 and (ty + pat) % 2:
                            continue
                        for k, t in enumerate([chained(pat, n, leaf[h, ty], "*" if h == "c14" and ty < 2 and n == 2 else 3 * ty + pat + style)] + (['*'] if n == 1 or ty == 2 else []) + (['{"":*}' if pat & 1 else '[*]'] if n == 1 else [])):
                            r.append(J(h, "lookups", [ty, style, pat, n, 0 if k == 2 else 1] + T(t, "?N"), t=90, w=2, reach=["end"] + (["missing"] if k != 2 or not pat else []) + (["found"] if k != 1 or n == 1 else []), name="lookups %d/%d %d:%d %s" % (ty, style, n, pat, t),
                                       bound="%d steps (keys: bits of %d) given as %s, default type %d of %s, every document %s" % (n, pat, "char* and int" if style else "std::string and size_t", ty, h, t)))
    MEM = ['"%d":%d,' % (i, i) for i in range(260)]
    for ty, style in ((0, 0), (1, 1), (2, 0)):
        leaf1 = ("N", '"?"', "[]")[ty]
        for n, pat, klen, t in ((1, 1, 1, Rep('{', *MEM, '"?":%s}' % leaf1)), (1, 0, 1, Rep('[', ("1,", 300), leaf1, ']')), (1, 1, 300, Rep('{"', ("k", 299), '?":%s,"' % leaf1, ("k", 298), '?":n}')), (2, 3, 1, Rep('{', *MEM, '"k":{', *MEM, '"k":%s}}' % leaf1.replace("N", "7").replace("?", "s"))),
                                (2, 2, 1, Rep('[{', *MEM, '"k":%s}]' % leaf1)), (2, 1, 1, Rep('{"a":[', ("n,", 300), leaf1, ']}')), (2, 0, 1, Rep('[', ("[],", 260), '[%s]]' % leaf1))):
            r.append(J("c14", "lookups", [ty, style, pat, n, klen] + T(t, "?N"), t=90, w=2, inst=400000000, reach=["end", "missing", "found"], name="lookups huge %d %d %d %d %s" % (ty, n, pat, klen, show(t)), bound="%d steps (keys of %d: bits of %d), default type %d, every document %s" % (n, klen, pat, ty, show(t))))
    for pat in (0, 31, 10, 21, 7):
        t = chained(pat, 5, "NN", 1).replace("*", "2")
        r.append(J("c14", "lookups", [0, 0, pat, 5, 1] + T(t, "?N"), t=90, w=2, reach=["end", "missing", "found"], name="lookups deep %d %s" % (pat, t), bound="5 steps (keys: bits of %d), default type int, every document %s" % (pat, t)))
    return r


def c15(J):
    r = []
    OB = ['[{"?":*,"a":1},{"?":*,"?":[]}]', '[{},{"?":*}]', '[{"?":*,"?":1},{}]', '[{"a":{"?":1}},{"?":{"?":2}}]', '[{"k":1,"ab":*,"b":"?"},{"?b":n,"?":[[]],"k":2}]']
    AR = ['[[*,"?"],[*]]', '[[],[*,"?"]]', '[["?",{"a":*}],[]]', '[[[]],[[*],{"?":1}]]', '[["x","y","?",n],["z",*,"abcdefghijklmnopqrstuvwxy?"]]']
    for left in (0, 1):
        for way in range(8):
            for i, t in enumerate(OB + AR):
                big = t == OB[0]
                tier = "q" if not big or way in (left, 2 + left, 4 + left, 7 - left) else "t"
                r.append(J("c15", "operands", [left, way] + T(t, "?"), t=120 if tier == "q" else 600, tier=tier, w=4 if big else 1, reach=["end"], name="operands %s %d %s" % ("value" if left else "container", way, t),
                           bound="way %d of joining the two containers of every %s" % (way, t)))
    for way in range(8):
        for left in (0, 1):
            for t in ('[{%s,"?":*},{%s,"?":"?"}]' % (','.join('"%c":%d' % (97 + i, i) for i in range(0, 18, 2)), ','.join('"%c":[]' % (97 + i) for i in range(0, 18, 3))), '[[%s,*],[%s,"?"]]' % (','.join('"%c"' % (97 + i) for i in range(9)), ','.join('[%d]' % i for i in range(8)))):
                r.append(J("c15", "operands", [left, way] + T(t, "?"), t=120, w=2, reach=["end"], name="operands large %s %d %s" % ("value" if left else "container", way, t), bound="way %d of joining the two containers of every %s" % (way, t)))
    for way in range(8):
        big = Rep('[{', *['"k%d":%d,' % (i, i) for i in range(260)], '"k":*},{', *['"%s%d":[],' % ("k" if i % 2 else "l", i) for i in range(260)], '"?":"?"}]') if way in (0, 3) else Rep('[[', ("1,", 300), '*],[', ('"x",', 300), '"?"]]')
        r.append(J("c15", "operands", [way % 2, way] + T(big, "?"), t=120, w=2, inst=400000000, reach=["end"], name="operands huge %d %s" % (way, show(big)), bound="way %d of joining the two containers of every %s" % (way, show(big))))
    OWN = ['{"?":{"?":[1],"a":2},"a":*}', '{"k":{"?":"?","k":[]},"?":2}', '{"a":{"?":*},"b":1}']
    OWA = ['[[*,"?"],*]', '["?",[],[*]]', '[[{"?":1}],"abcdefghijklmnopqrstuvwx?",[t]]']
    for way in range(13):
        for t in OWN + OWA:
            if way == 5 and t[0] == '{' or way == 10:
                continue
            r.append(J("c15", "within", [way] + T(t, "?"), t=120, w=1, reach=["end"], name="within %d %s" % (way, t), bound="way %d of joining every %s with itself or one of its own containers" % (way, t)))
    return r


def c17(J):
    r = []
    for p in range(4):
        for k in [i for i in range(1, 65) if i % 4 == p] + [100 + i for i in (3, 4, 9, 17, 32, 33, 63, 64) if i % 4 == p]:
            r.append(J("c17_%d" % p, "sizes", [k], t=120, w=1, reach=["end", "loads", "refused"], name="sizes %d" % k, bound="%d macro arguments%s, each field in turn absent, ill-typed or any digit" % (k % 100, " (a tagged optional one and one with a key of its own among them)" if k > 100 else "")))
    docs = {0: ['{"a":*,"b":*,"c":*}', '{"?":1,"?":"?","c":f}', '{"a":1,"?":"x","?":t}', '*', '{"a":[1],"b":"?","c":f,"?":*}', '{"a":1,"b":"?","c":f,"?":*}'],
            1: ['{"bee":"?","":*,"d d":*,"e":*}', '{"?":*,"bee":"x","e":*}', '{"a":*,"bee":*,"e":1}', '{"b?e":"x","e":*}', '{"d?d":*,"bee":"?","e":n}', '{"d d":[1,*],"bee":"?","e":4,"?":2}', '{"b":"x","c":t,"d":[],"e":1,"bee":*}', '*'],
            2: ['{"b":"?","a":*,"result":"x"}', '{"?":"?","b":"c","rest":*}', '{"?":*,"b":"c","in":"?"}', '{"a":"?"}', '{"b":*,"error_key":*,"key":*}', '{"b":"?","state":*,"var":*}'],
            3: ['{"in":{"y":*,"x":*},"l":[{"y":"red"},*]}', '{"in":{"y":"green"},"m":{"?":{"y":"?ed"}},"any":*}', '{"in":{"y":"???"},"o":*}', '{"in":{"?":"red","x":*},"o":{"?":5}}', '{"in":{"y":*},"l":*,"m":*}', '{"in":*,"any":{"?":*}}'],
            4: ['{"n":*,"v":*,"p":[1,*]}', '*', '{"z":[*,2],"o":*,"r":*}', '{"?":*,"v":"?"}', '{"o":{"?":*},"r":[*]}', '[*]', '{"p":["?",*],"z":*}', '{"z":[1,*,*]}'],
            5: ['{"one_":*,"2":*}', '{"one?":t,"2":*}', '{"?ne_":t,"?":"?"}', '{"one":t,"two_":"x","2":*}'],
            6: ['{"a":DDD,"bb":*,"c":1}', '{"a":1,"bb":NN,"dd":NN}', '{"a":NNN,"bb":0}', '{"a":214748364D,"bb":429496729D,"c":922337203685477580D,"dd":1844674407370955161D}', '{"a":-214748364D,"bb":1,"c":-922337203685477580D}', '{"a":*,"bb":*,"c":*}'],
            7: ['*', '{"y":"???"}', '{"y":"??????","x":*}', '{"y":NN,"x":NN}', '[*,{"y":1}]']}
    for st in docs:
        for t in docs[st]:
            r.append(J("c17", "load", [st] + T(t, "D" if "DD" in t or "0D" in t or "4D" in t else "N" if "N" in t else "?"), t=120, w=1, reach=["end"], name="load %d %s" % (st, t), bound="struct %d of c17.cpp from every document %s" % (st, t)))
    for t in ('{"?":*}', '{"a":*,"b":*}', '*', '{"a":NNN}', '[{"a":1},*]'):
        r.append(J("c17", "outside", T(t, "?N"), t=60, w=1, reach=["end"], name="outside %s" % t, bound="a type with an ext::jsonization from every document %s" % t))
    return r


ENUMS = ["int, default range", "int, names that differ in case", "unsigned", "long long, in a struct in a namespace", "unsigned long long", "int, 100 to 103", "int, -300 to -129", "unsigned, 0 to 600", "bool, in an unnamed namespace", "int, -3 to 0", "unsigned, 0 to 0", "long, -2 to 3", "signed char", "unsigned char", "short", "char"]


def c18(J):
    r = []
    for h in ("c18", "c18n"):
        for e in range(16 if h == "c18" else 15):
            r.append(J(h, "values", [e], t=120, w=1, reach=["end", "named"] + (["nameless"] if e != 8 and h == "c18" else []), name="%s values %d" % (h, e), bound="every value of an enum (%s)" % ENUMS[e]))
    texts = {0: ['"??"', '"???"', '"????"', '"mi?us"', '"?????"', '"lo??st"', '"?I?HEST"', '"low?"', '"t??_?"', '"?3"', '"h?gh?st"', '"?"', '""', '"zero?"'], 1: ['"???"', '"????"', '"?ed"', '"R?D"', '"rE??"', '"r?d"', '"????n"', '"RED?"'],
             2: ['"????"', '"???"', '"z?r?"', '"T?p"'], 3: ['"???"', '"l?w?st"', '"min?s"', '"M?NUS"'], 4: ['"???"', '"?i"', '"H?"'], 5: ['"I??e"', '"id??"', '"??oppe?"', '"running?"', '"????"'], 6: ['"f?r??"', '"mi??le"', '"???"', '"E?D"'],
             7: ['"?"', '"??"'], 8: ['"??"', '"???"', '"?e?"'], 9: ['"l?v?l"', '"j?st_Below"', '"deep?down"', '"????"'], 10: ['"????"', '"only?"'], 11: ['"A_very_long_enumerator_name_of_more_than_thirty_two_character?"', '"a_?ery_long_enumerator_name_of_more_th?n_thirty_two_characterS"', '"b?"', '"?"']}
    num = {0: ["NNN", "-DDDDDDDDDD", "21474836DD", "214748364DD"], 1: ["DD"], 2: ["NNN", "42949672DD"], 3: ["NNN", "-92233720368547758DD"], 4: ["NNN", "184467440737095516DD"], 5: ["10D"], 6: ["-DDD"], 7: ["NNN", "42949672DD"], 8: ["N"], 9: ["-DD"], 10: ["DD"], 11: ["-D", "922337203685477580D"]}
    for e in range(12):
        for t in texts[e]:
            r.append(J("c18", "texts", [e] + T(t, "?"), t=120, w=2, reach=["end", "refused"] if t != '""' else ["end"], name="texts %d %s" % (e, t), bound="every text %s as an enum (%s)" % (t, ENUMS[e])))
        for t in num[e]:
            r.append(J("c18", "texts", [e] + T(t, "ND"), t=120, w=1, reach=["end"] + (["converts"] if e != 8 and t != "214748364DD" else []), name="texts %d %s" % (e, t), bound="every number %s as an enum (%s)" % (t, ENUMS[e])))
        r.append(J("c18", "texts", [e] + T("*", ""), t=60, w=1, reach=["end", "refused"], name="texts %d *" % e, bound="every small value as an enum (%s)" % ENUMS[e]))
        r.append(J("c18n", "texts", [e] + T("*", ""), t=60, w=1, reach=["end", "refused"], name="c18n texts %d *" % e, bound="every small value as an enum (%s)" % ENUMS[e]))
    for e, t in ((0, '"??????"'), (1, '"?????"'), (6, '"?????"'), (5, '"???????"'), (7, '"???"')):
        r.append(J("c18", "texts", [e] + T(t, "?"), t=900, tier="t", w=8, reach=["end", "refused"], name="texts %d %s" % (e, t), bound="every text %s as an enum (%s)" % (t, ENUMS[e])))
    return r


def c19(J):
    r = []
    for a in range(7):
        for b in range(a, 7):
            for t, cls in [('[*,*]', "")] + ([('[[*,"?"],[1,"?"]]', "?"), ('[{"?":*},{"?":[]}]', "?")] if (a + b) % 3 == 0 else []) + ([('[[*,"?"],[*,"?"]]', "?")] if (a, b) in ((0, 6), (3, 4)) else []) + ([('[{"?":*},{"?":*}]', "?")] if (a, b) in ((0, 4), (3, 5)) else []) + ([('["??","??"]', "?"), ('[NNN,NNN]', "N")] if (a * b) % 4 == 0 and b < 4 else []) + \
                    ([('[{"a":1,"?":"?"},{"a":1,"?":"x"}]', "?"), ('[[["?"],*],[["?"],*]]', "?")] if (a + b) % 4 == 1 else []):
                r.append(J("c19", "pairs", [a, b] + T(t, cls), t=120, w=2 if "??" in t else 1, reach=["end", "equal", "different"], name="pairs %d %d %s" % (a, b, t), bound="every pair %s, made in ways %d and %d" % (t, a, b)))
    for t, cls in (('["?","???"]', "?"), ('[[],[*]]', ""), ('[[*,*],[*]]', ""), ('[{},{"?":*}]', "?"), ('[{"a":*,"b":1},{"b":1,"a":*,"?":2}]', "?"), ('[[1,*],[*,1]]', ""), ('["???",*]', "?"), ('[NNNN,*]', "N"), ('[{"??":1},{"?":1}]', "?"), ('["abcdefghijklmnopqrstuvwx??","abcdefghijklmnopqrstuvwx??"]', "?"),
                   ('[{"a":1,"b":*},{"b":1,"a":*}]', ""), ('[[[],{"?":[*]}],[[],{"?":[*]}]]', "?")):
        for a, b in ((0, 3), (4, 2)):
            r.append(J("c19", "pairs", [a, b] + T(t, cls), t=120, w=2 if t.count("?") > 2 else 1, reach=["end", "different"], name="pairs %d %d %s" % (a, b, t), bound="every pair %s, made in ways %d and %d" % (t, a, b)))
    for b in VBIG:
        x, y = b.replace('*', '1'), b.replace('?', 'q', 1 if b.count('?') > 1 else 0).replace('*', '1')
        if b == VBIG[1]:
            x = x.replace('k?', 'kz')
        t = '[%s,%s]' % (x.replace('?', 'q', 2) if b == VBIG[8] else x, y.replace('?', 'q') if b in (VBIG[2], VBIG[8]) else y)
        if len(t) < 250 and 0 < t.count('?') <= 6:
            r.append(J("c19", "pairs", [0, 3] + T(t, "?"), t=120, w=2, reach=["end", "different"], name="pairs big %s" % t, bound="every pair %s" % t))
    for t in (Rep('["', ("abc", 100), '?","', ("abc", 100), 'd"]'), Rep('["', ("x", 66000), '","', ("x", 66000), '?"]'), Rep('[[', ("1,", 300), '*],[', ("1,", 300), '1]]'), Rep('[[', ("1,", 1500), '1],[', ("1,", 1500), '*]]'), Rep('[[*', (",1", 300), '],[1', (",1", 300), ']]'), Rep('["', ("\x00", 300), 'a?","', ("\x00", 300), 'ab"]'),
              Rep('[{', *['"k%d":%d,' % (i, i) for i in range(260)], '"?":1},{', *['"k%d":%d,' % (i, i) for i in range(260)], '"z":1}]'), Rep("[", ("[", 260), "*", ("]", 260), ",", ("[", 260), "1", ("]", 260), "]"), Rep('[{"', ("k", 300), '?":1},{"', ("k", 300), '":1}]')):
        r.append(J("c19", "pairs", [0, 3] + T(t, "?"), t=120, w=2, inst=400000000, reach=["end", "different"], name="pairs huge %s" % show(t), bound="every pair %s" % show(t)))
    for t, cls in (('["???","???"]', "?"), ('[{"?":1,"?":*},{"?":1,"?":[]}]', "?"), ('[[*,{"a":*}],[*,{"a":*}]]', ""), ('[NNNNN,NNNNN]', "N")):
        r.append(J("c19", "pairs", [0, 3] + T(t, cls), t=900, w=8, tier="t", reach=["end", "different"], name="pairs %s" % t, bound="every pair %s" % t))
    return r


def c21(J):
    r = []
    for k, ts in ((0, ['*', '[*]', '{"":*}', '"?"']), (1, ['*', '[*]', '{"?":*}', '[[*],"?"]', '"??"', '{"a":{"?":*},"?":"?"}', '{"?":{"in":*}}', '[{"?":*},*]', '[*,*]', '{"x":*,"t":"?"}', '["?",*]']), (2, ['{"??":*}', '[]', '{}', '""'])):
        for t in ts:
            r.append(J("c21", "one", [0, 61, k] + T(t, "?"), t=120, w=2, reach=["end", "allowed", "refused"], name="one %d %s" % (k, t), bound="each of 62 accessors with every key of %d bytes and every position on every value %s" % (k, t)))
    for t in ('NNN', '-DDDDDDDDDD', '214748364D', '429496729D', '922337203685477580D', '1844674407370955161D', 'DDDD'):
        for lo, hi in ((0, 6), (10, 61)):
            r.append(J("c21", "one", [lo, hi, 1] + T(t, "ND"), t=120, w=2, reach=["end", "allowed"], name="one %d-%d %s" % (lo, hi, t), bound="accessors %d to %d on every number %s" % (lo, hi, t)))
    for t in ('0', '1', '-1.5e3', '1e9999', '1e300', '-1e9999'):
        r.append(J("c21", "one", [7, 9, 0] + T(t, ""), t=60, w=1, reach=["end"], name="one 7-9 %s" % t, bound="the floating-point readers on %s" % t))
    for op in range(35, 52):
        for t in (['*'] if op != 51 else []) + (['[*]'] if op in (35, 39, 40, 42, 46, 49, 51) else ['{"?":*}']):
            r.append(J("c21", "two", [op, op] + T(t, "?"), t=120, w=2, reach=["end", "allowed", "refused"], name="two %d %s" % (op, t), bound="accessor %d followed by each of 62 on every value %s" % (op, t)))
    return r


def c23(J):
    r = []
    for ty, n in enumerate(("float", "double", "long double")):
        for way in range(12):
            r.append(J("c23", "floats", [ty, way], t=120, w=2, v="fpstream", reach=["end"], name="floats %s %d" % (n, way), bound="every finite %s, stored in way %d" % (n, way)))
    return r


def c24(J):
    r = []
    for lo, hi in ((0, 15), (16, 33)):
        for k, ts in ((0, ['*']), (1, ['*', '[*]', '{"?":*}', '"?"', '[[*],"?"]', '{"?":{"a":*},"?":["?"]}', '{"?":[*]}', '[{"?":*},["?"]]', '{"x":*,"t":"?"}', 'D', '-DD.D']), (2, ['{"??":"??"}', '["??",D]'])):
            for t in ts:
                r.append(J("c24", "one", [lo, hi, k] + T(t, "?D"), t=120, w=2, v="tsan", reach=["end"], name="one %d-%d %d %s" % (lo, hi, k, t), bound="each of the const operations %d to %d twice on every value %s with every key of %d bytes and every position" % (lo, hi, t, k)))
    for op in (0, 1, 2):
        for t in ('', '?', '??', '???', '????', '?????', '"????', '[?,?]', '{"?":??', '{"?":[?,?]}', '"\\u????"', '0123456789abcd"????', '"0123456789abcde??"', '-??', '{"a":"?","?":[true,{"?":?}]}') + (('/?????', '[1//?\n?]', '[1,/*??/]') if op == 1 else ()):
            r.append(J("c24", "text", [op] + T(t, "?"), t=60, w=1, v="tsan", reach=["end"], name="text %d %s" % (op, t), bound="parsing and serialising every text %s, parser %d" % (t, op)))
    for op in (0, 1, 2):
        r += temps(J, "c24", "text", [op], [Rep('["', ("abcdefghijklm", 25), '\\u00??"]'), Rep('[', ("1,", 300), '?]'), Rep('{"', ("k", 300), '":?}'), Rep(("[", 100), '"\\u00e9?"', ("]", 100))], v="tsan", w=1, reach=["end"], t=100)
    for t in ('"?"', '["?",{"?":1}]', '*'):
        r.append(J("c24", "stream", T(t, "?"), t=60, w=1, v="tsanstream", reach=["end"], name="stream " + t, bound="operator<< and parse(istream) on every value " + t))
    return r


PROPS = {"C23": c23, "C24": c24, "C21": c21, "C19": c19, "C18": c18, "C17": c17, "C15": c15, "C14": c14, "C12": c12, "C13": c13, "C11": c11, "C10": c10, "C16": c16, "C01": c01, "C02": c02, "C03": c03, "C04": trapped(c04, lambda j: j["t"] <= 60 and len(j["p"]) < 30 and "HHHH\\uHHHH" not in j["name"]), "C05": c05, "C06": trapped(c06, lambda j: "safe jsonc cut" not in j["name"]), "C07": c07, "C08": c08, "C09": trapped(c09, lambda j: j["e"] == "read_int" and j["t"] <= 100 and len(j["p"]) < 10 or j["name"].endswith((" 1 digits", " 2 digits"))), "C20": c20, "C22": trapped(c22)}
COMMON = []
ASSUME = {}


def jobs(prop, J):
    return PROPS[prop](J)


def assumptions(prop):
    return ASSUME.get(prop, []) + COMMON

# ------------------------------------------------------------------ texts for the manifest
TECH = {}
BOUNDS = {
    "C01": "Bounds: all documents of up to 9 bytes (11 thorough), and longer templates with 3 to 12 symbolic bytes (up to 41 elements, 17 members, 30 levels, 130 characters in a literal, 100 in a number, 70 blanks), and past the range of 8-bit and 16-bit counters: strings, keys and numbers of 260 to 66,000 characters, 300 and 66,000 elements, 260 members, 260 and 1,100 levels, 70,000 blanks, each with 1 to 3 symbolic bytes at the end.",
    "C02": "Bounds: all texts of up to 8 bytes (10 thorough), and templates with comments and commas in every position, large ones (as for C01) among them, comments of up to 70,000 characters and 20,000 comments in a row.",
    "C03": "Bounds: all documents of up to 8 bytes (10 thorough), and nested templates with 2 to 9 symbolic bytes, large ones (as for C01) among them.",
    "C04": "Bounds: all single and double \\u escapes, every escape character, literals of one to three blocks with escapes at every distance from the block ends, literals of up to 66,000 characters or 33,000 escapes.",
    "C05": "Bounds: scalar 32/64-bit, SSE2, SSE4.1 and AVX2 parsers and ten container kinds against the plain scalar parser over std::string, documents of up to 160 bytes with 4 to 8 symbolic ones, and of 300 to 66,000 bytes with one or two.",
    "C06": "Bounds: all inputs of up to 9 bytes (8 for JSONC), every truncation of documents with each construct with its last three bytes symbolic, blocks ending at, before and after the end of the buffer, the large documents of C01 (those of up to 66,000 parts too) whole and cut.",
    "C07": "Bounds: every tree of 12 shapes (up to five levels) with 2 to 6 symbolic bytes in strings and keys and every choice of small values, built in three ways, all four ways of serialising, indents 0, 1, 2, 4; eight large shapes (21 elements, 15 members, 19 levels, texts of 140 characters) with indents -1, 3, 9; texts of 260 to 66,000 characters, 300 and 3,000 elements, 260 members and 300 levels.",
    "C08": "Bounds: the same trees as C07; indents -1, 0, 2, 3, 4 (0, 3, 9 on the large ones, 40, 70, 255, 256, 300 and 66,000 on small ones); the very large values of C07; operator<< on a real std::ostringstream.",
    "C09": "Bounds: none on writing - every value of the six integer types; reading: every integer text of up to one digit more than the type holds (and 40 digits), every number text of 5 characters, fractions and exponents of up to 7.",
    "C10": "Bounds: 63 C++ types (integers, floats, strings, enums, nullable wrappers, variants, sequences, sets, maps, tuples, reflected structs, nested up to three levels) against every choice of 14 small values in 0 to 3 places and symbolic strings, keys and numbers of 1 to 4 characters, sequences and maps of up to 17, and some of 260 to 300, elements; floating-point reading on concrete texts.",
    "C11": "Bounds: eight ways of copying, seven of moving and fifteen of assigning from, to or within itself, on every tree of six shapes up to three levels deep with symbolic choices of values, strings and descendants, followed by any of five mutations at any place of either side; also on values of 300 parts.",
    "C12": "Bounds: every sequence of up to three of twenty operations: one on arrays of 0 to 9, 15, 16, 17, 32 and 33, and (positions near the ends and near 256) 255, 256, 257 and 300 elements, two on up to five, three on an empty one, positions over all 2^64 values; elements are numbers, strings and null.",
    "C13": "Bounds: every sequence of up to two of 24 operations on objects of up to three members, with two or three symbolic keys of up to three bytes (or fixed long ones); one operation on objects of 6, 16, 257 and 301 members with a symbolic key, and with keys of up to 4096.",
    "C14": "Bounds: chains of one to three (five patterns: five) symbolic keys (0 or 1 byte) and positions (all 2^64, or all 2^32 ints) in every combination, 13 types of default, on documents of up to six levels with symbolic keys, texts and every choice of 14 small values; one step in documents of 260 members or 300 elements, and keys of 300.",
    "C15": "Bounds: eight ways of joining two containers (all overloads of | |= + += with container and value on the left) and twelve of joining a container with itself or with one it holds, on eighteen shapes (up to ten, and some of 261 to 301, members or elements a side) with symbolic keys, texts and choices of small values.",
    "C16": "Bounds: the same types and values as C10; writing floating-point numbers is not encoded.",
    "C17": "Bounds: structs with every number of macro arguments from 1 to 64 (with MEO_OPT and MEO_KEY among them for eight of these), each field in turn absent, null, ill-typed or any digit; eight structs mixing scalar, enum, container, nullable, variant, json and nested struct fields, every tag combination and field names equal to the macros' own, on 45 shapes of document with symbolic keys, texts and choices of small values; one ext::jsonization type.",
    "C18": "Bounds: none on enum values - every value of the underlying type of sixteen enums (int, unsigned, long, long long, unsigned long long, bool and, on writing, the types narrower than int; default and custom ranges; names that differ in case only), as names and, with MEOJSON_ENUM_AS_NUMBER, as numbers; texts of up to five symbolic bytes and the names with up to three bytes replaced; number texts of up to 20 digits.",
    "C19": "Bounds: pairs of values of 29 shapes (up to 21 elements, 14 members, 19 levels) with symbolic strings, keys and numbers of 1 to 5 characters and every choice of 14 small values, pairs with texts of 300 and 66,000 characters, 301 and 1,501 elements, 261 members, 260 levels; the two made in 28 combinations of seven ways (constructed in three styles, parsed, emptied and refilled, moved, copied).",
    "C20": "Bounds: all streams of up to 6 bytes and marked ones of up to 16, all flags; streams of one byte fewer than, exactly and one more than 255, 256, 511, 512, 1024, 4096, 8192 and 65,536 bytes with up to six symbolic bytes at the ends; std::istringstream's own code is part of the encoding.",
    "C21": "Bounds: 62 accessors (const and mutable access, operators, conversions), alone and after each of 17 mutating ones, with every position (all 2^64) and every key of up to two bytes, on values of 16 shapes with symbolic strings and keys and every choice of 14 small values, and integer texts of up to 20 digits; std::out_of_range is what at() throws for an absent position or key of a container of the right kind.",
    "C24": "Schedules: each operation is shown to write no memory that existed when it began (other than atomically, or initialising a static under its guard), on a first and on a second call; operations of which that holds cannot race in any interleaving of any number of threads. A counterexample is replayed by two threads under ThreadSanitizer. Bounds: 34 groups of const operations (and work on a copy) on values of 13 shapes with symbolic texts, keys, positions and every choice of 14 small values, parsing and serialising of every text of up to 5 bytes and longer templates, from three kinds of input; the standard library's own variables are left out.",
    "C23": "Bounds: none on the numbers - every finite float, double and long double; twelve ways of storing one, three of serialising. The C library's printf and strtod are taken by contract (rt/fpio.cpp): what prints with max_digits10 or more significant digits reads back as itself through the same type, with a range error if subnormal; with fewer digits anything may be read. Counterexamples are searched for natively among numbers of the same sign and size.",
    "C22": "Bounds: none on the values - all 2^32, 2^64, 2^128 and 2^256 blocks; the AArch64 NEON code is encoded from cross-compiled bitcode and has no native replay.",
}
