"""What each check runs: entries, bounds, and what is trusted."""

TRUST = [
    "rustc's MIR of the library and of std is what runs (the engine interprets MIR obtained from the same compiler on every run)",
    "std/regex/xmltree functions listed under modelled_functions behave as documented (models in engine/models.py, engine/rx.py)",
    "z3 answers correctly; unknown or timeout is reported as an error, never as success",
]


def one(entry, conf):
    return lambda tier, entries: [(entry, conf)]


def jobs_p06(tier, entries):
    n = 3 if tier == "quick" else 6
    l = 4 if tier == "quick" else 7
    return [("p06_round_trip", {"params": {"list": n}}), ("p06_read_total", {"params": {"len": l}})]


def xml_jobs(prefixes, extra_confs):
    """every entry of the modules, each under a sparse and a dense shape of values"""
    def jobs(tier, entries):
        out = []
        sparse = {"budget": 3, "K": 2, "nest": True} if tier == "quick" else {"budget": 5, "K": 3, "nest": True}
        dense = {"budget": 1, "K": 1, "nest": True, "dense": True} if tier == "quick" else {"budget": 3, "K": 2, "nest": True, "dense": True}
        for e in entries:
            if e.split("::")[0] in prefixes and "::" in e and not e.endswith("ENTRIES"):
                for base in (sparse, dense):
                    if e.split("::")[1] == "TableColumn" and not base.get("dense"):
                        base = dict(base, budget=base["budget"] - 1)       # 23 kinds of content and 8 attributes
                    for x in extra_confs(tier, base):
                        out.append((e, dict(base, **x)))
        return out
    return jobs


def p03_confs(tier, base):
    r = [{"params": {"comment": 0}, "explicit": True}]
    if not base.get("dense"):
        r.append({"params": {"comment": 1}, "budget": base["budget"] - 1})
    return r


XML_BOUND = {
    "quick": "per structure: all values in which at most 3 optional parts / list elements are present (lists up to 2), and all values in which everything is present (lists of 1) but at most 1; nested structures of any size and depth by induction; all numbers, strings and enum values",
    "thorough": "per structure: all values in which at most 5 optional parts / list elements are present (lists up to 3), and all values in which everything is present (lists of 2) but at most 3; nested structures of any size and depth by induction; all numbers, strings and enum values",
}
XML_ASSUME = TRUST + [
    "strings are opaque: the library may compare, copy or parse them but the solver only knows equality and whether they parse as a number",
    "a nested structure's reader applied to what the nested structure's writer (or the schema encoding) produced returns the value (induction on depth; the nested structure's own entry proves its step)",
    "values the schema cannot express are assumed away: empty sentence lists in SentenceOrColumnOrTable, non-text base inside Ruby, empty supplementary provision label",
]

def shapes(tier, k):
    """(eda, range) list lengths, each with every position ranging over everything in turn"""
    m = 1 if tier == "quick" else 2
    out = []
    for e in range(m + 1):
        for r in range(m + 1):
            for w in range(1 + e + r):
                out.append(dict(k, eda=e, range=r, wide=w))
    # longer lists, the other numbers being fixed
    for e, r in ((2, 0), (0, 2), (2, 3)) if tier == "quick" else ((3, 0), (0, 3), (3, 4), (4, 1)):
        for w in {0, e, e + r}:
            out.append(dict(k, eda=e, range=r, wide=w, small=1))
    return out


def jobs_p07(tier, entries):
    out = []
    for kind in range(6):
        out += [("p07_heading_texts", {"params": p}) for p in shapes(tier, {"kind": kind, "small": 2})]
    for kind in range(9):
        for notation in (0, 1):
            for no in (0, 1):
                for p in shapes("quick", {"kind": kind, "small": 1, "notation": notation, "no": no}):
                    if tier != "quick" or p["wide"] == 0 and p["eda"] == 1 and p["range"] == 1:
                        out.append(("p07_notations", {"params": p}))
    return out + [("p07_paragraph_texts", {"params": p}) for p in shapes(tier, {"small": 2})]


def jobs_p08(tier, entries):
    out = []
    for k in range(16):
        for p in shapes(tier, {"pattern": k, "small": 2, "letters": 60 if tier == "quick" else 710}):
            n = p["eda"] + p["range"]
            p["roman"] = 399 if n == 0 or tier != "quick" and n < 3 else 49
            if n > 2:
                p["small"] = 1
            out.append(("p08_item_labels", {"params": p}))
    return out


def jobs_p09(tier, entries):
    n = 3 if tier == "quick" else 5
    out = [(e, {"params": {"len": n}}) for e in ("p09_article", "p09_item", "p09_split")]
    for form in range(3):
        for cl in range(6):
            for place in range(4):
                for l in ((1, 2, 21) if cl < 2 else (1, 2)) if tier == "quick" else (1, 2, 3, 4, 21, 40) if cl < 2 else (1, 2, 3):
                    out.append(("p09_long", {"params": {"form": form, "class": cl, "place": place, "len": l}}))
    return out


def jobs_tree(p):
    def jobs(tier, entries):
        q = tier == "quick"
        out = [(p + "_main", {"params": {"nodes": 4 if q else 5, "spine": 0, "top": 0}}), (p + "_suppl", {"params": {"nodes": 4 if q else 5, "spine": 0, "top": 0}})]
        for top, deep in ((1, 5), (2, 4), (3, 3)):
            for s in range(1, deep + 1):
                out.append((p + "_main", {"params": {"nodes": 3 if q else 4, "spine": s, "top": top}}))
        for s in range(1, 5):
            out.append((p + "_suppl", {"params": {"nodes": 3 if q else 4, "spine": s, "top": 1}}))
        return out
    return jobs


def jobs_p16(tier, entries):
    if tier == "quick":
        return [("p16_texts", {"params": {"nodes": 2, "spine": 0}})] + [("p16_texts", {"params": {"nodes": 1, "spine": s}}) for s in range(1, 12)]
    return [("p16_texts", {"params": {"nodes": 3, "spine": 0}})] + [("p16_texts", {"params": {"nodes": 2, "spine": s}}) for s in range(1, 12)]


def jobs_p17(tier, entries):
    if tier == "quick":
        return [("p17_sentence", {"budget": 3, "K": 3}), ("p17_text", {"budget": 4, "K": 3}), ("p17_table", {"budget": 5, "K": 3})]
    return [("p17_sentence", {"budget": 5, "K": 4}), ("p17_text", {"budget": 6, "K": 5}), ("p17_table", {"budget": 7, "K": 4})]


# attributes without which nothing else of the structure is read
NEEDED = {"Law": 4, "Part": 1, "Chapter": 1, "Section": 1, "Subsection": 1, "Division": 1, "Article": 1, "Paragraph": 1, "Class": 1,
          "Fig": 1, "TOCPart": 1, "TOCChapter": 1, "TOCSection": 1, "TOCSubsection": 1, "TOCDivision": 1, "TOCArticle": 1}
MIXED = ("Contents", "ArithFormula", "Style", "Note", "Format", "QuoteStruct", "TableColumn")      # over 20 kinds of children
WIDE = ("AmendProvision", "LawBody", "Law", "Paragraph")


def jobs_any_element(prefixes):
    """every entry, over arbitrary elements: many attributes and few children, then few attributes and many children"""
    def jobs(tier, entries):
        out = []
        q = tier == "quick"
        base = {"nest": True, "absread": True}
        for e in entries:
            if e.split("::")[0] not in prefixes or "::" not in e or e.endswith("ENTRIES"):
                continue
            t = e.split("::")[1]
            n = NEEDED.get(t, 0)
            out.append((e, dict(base, budget=1, K=1, attrs=n + (2 if q else 3) - (t == "Law" and q))))
            if t in MIXED:
                out.append((e, dict(base, budget=2, K=2, attrs=n)))
                if not q:
                    out.append((e, dict(base, budget=3, K=3, attrs=n, nodes=["Element"])))
                continue
            out.append((e, dict(base, budget=2 if q else 3, K=2 if q else 3, attrs=n)))
            out.append((e, dict(base, budget=(3 if t in WIDE else 4) + (not q), K=3, attrs=n, nodes=["Element"])))
        return out
    return jobs


ANY_BOUND = {
    "quick": "per structure: all elements with up to 4 child elements (grandchildren the structure reads itself included; 3 in AmendProvision, LawBody, Law, Paragraph, 2 where over 20 kinds of children exist) and the attributes it needs; up to 2 nodes of any kind (elements, text, comments, CDATA, instructions); up to 1 node and up to 2 attributes more; any names, values and texts; nested structures any value or error",
    "thorough": "per structure: all elements with up to 5 child elements (4 in AmendProvision, LawBody, Law, Paragraph, 3 where over 20 kinds of children exist); up to 3 nodes of any kind; up to 1 node and up to 3 attributes more",
}
ANY_ASSUME = TRUST + [
    "strings are opaque: the library may compare, copy or parse them but the solver only knows equality and whether they parse",
    "a nested structure's reader returns an arbitrary value or an arbitrary error (its own entry shows that it returns), a value only for an element of its own name (shown by P05 for each structure)",
    "Text::from_children of a nested element is an arbitrary text (its own entry shows that it returns)",
]


PART, CHAPTER, SECTION, SUBSECTION, DIVISION, ARTICLE, PARAGRAPH, ITEM, CAPTION, TEXT, SUPPL = range(1, 12)


def script(*kinds):
    n = 0
    for k in kinds:
        n = n * 12 + k
    return n


# beginnings after which every order of further lines is explored
BEGINNINGS = [
    (PART, CHAPTER, SECTION, SUBSECTION, DIVISION, ARTICLE),
    (CHAPTER, SECTION, DIVISION, ARTICLE, PARAGRAPH, ITEM),
    (TEXT, ARTICLE, SUPPL, CHAPTER, ARTICLE),
    (PART, ARTICLE, SUPPL),
    (PARAGRAPH, SUPPL, TEXT),
    (SECTION, ARTICLE, ITEM, TEXT, CAPTION, PARAGRAPH),
]


def jobs_p10(tier, entries):
    q = tier == "quick"
    out = [("p10_characters", {"params": {"lines": l, "len": n}}) for l, n in (((1, 4), (2, 2), (3, 1)) if q else ((1, 6), (2, 3), (3, 2), (4, 1)))]
    out += [("p10_text", {"params": {"kind": k, "len": n}}) for k in range(11) for n in ((4,) if q else (3, 5, 7))]
    out.append(("p10_order", {"params": {"script": 0, "n": 3 if q else 4, "styles": 3}}))
    for b in BEGINNINGS:
        out.append(("p10_order", {"params": {"script": script(*b), "n": 2 if q else 3, "styles": 3}}))
    # item lines in every style, ten levels down, and past the last
    for down in (9, 10, 11):
        out.append(("p10_items", {"params": {"n": 2 if q else 3, "styles": 15, "down": down}}))
    return [(e, dict(c, max_steps=3000000)) for e, c in out]


def jobs_p11(tier, entries):
    q = tier == "quick"
    out = [("p11_lines", {"params": {"script": 0, "n": 3 if q else 4}})]
    for b in BEGINNINGS:
        for n in ((3,) if not q or len(b) < 4 else (2,)):
            out.append(("p11_lines", {"params": {"script": script(*b), "n": n}}))
    return out + [("p11_deleted", {"params": {"at": at}}) for at in range(8)]


def jobs_p12(tier, entries):
    q = tier == "quick"
    out = [("p12_items", {"params": {"n": 4 if q else 5, "styles": 3, "down": 0, "first": 0}}),
           ("p12_items", {"params": {"n": 2, "styles": 15, "down": 0, "first": 0}}),
           ("p12_items", {"params": {"n": 2, "styles": 12, "down": 11, "first": 0}})]
    for down in range(2, 11):
        out.append(("p12_items", {"params": {"n": 2 if q else 3, "styles": down + 2, "down": down, "first": 0}}))
    return out


def jobs_p13(tier, entries):
    q = tier == "quick"
    out = []
    n = 2 if q else 3
    for kind in range(7):
        for e, r in ((0, 0), (1, 0), (1, 1)) if q else ((0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (1, 2)):
            out.append(("p13_marked", {"params": {"kind": kind, "eda": e, "range": r, "small": 2 if q else 4, "style": 0, "len": n, "gap": 1}}))
    for style in range(15):
        for e, r in ((0, 0), (1, 1)) if q else ((0, 0), (1, 0), (0, 1), (1, 2)):
            out.append(("p13_marked", {"params": {"kind": 7, "eda": e, "range": r, "small": 2 if q else 4, "style": style, "len": n, "gap": 1}}))
    for l in range(1, 4 if q else 6):
        for g in (0, 1):
            out.append(("p13_caption", {"params": {"len": l, "gap": g}}))
            out.append(("p13_suppl", {"params": {"len": l - 1, "gap": g}}))
            for form in range(4):
                for place in (0, 1):
                    out.append(("p13_plain", {"params": {"len": l, "gap": g, "form": form, "place": place}}))
    for l in (1, 3, 4):
        out.append(("p13_marked", {"params": {"kind": 5, "eda": 0, "range": 0, "small": 1, "style": 0, "len": l, "gap": 0}}))
        out.append(("p13_marked", {"params": {"kind": 7, "eda": 0, "range": 0, "small": 1, "style": 1, "len": l, "gap": 2}}))
    return out + [("p13_ends", {})]


def jobs_p19(tier, entries):
    """(entry, conf) of P19: where the arbitrary text stands, how the writer fails, what the bytes begin with"""
    thorough = tier == "thorough"

    def mem(place, n):
        return ("p19_memory", {"params": {"place": place, "len": n}})

    def wr(place, n, most, faults, step, interrupts, kinds=1):
        return ("p19_writer", {"params": {"place": place, "len": n, "most": most, "faults": faults, "step": step, "interrupts": interrupts, "kinds": kinds}})
    big = {"max_steps": 20000000}
    out = [mem(p, 1) for p in range(8)] + [mem(p, 2) for p in ((0, 1, 2, 3, 4, 5, 6, 7) if thorough else (1, 2, 3))] + [mem(2, 0)]
    if thorough:
        out += [mem(p, 3) for p in (1, 2, 3)]
    out += [wr(2, 0, 0, 80, 1, 3), wr(0, 0, 0, 24, 10, 0)]
    out += [wr(1, 1, m, 2, 3, 2) for m in (0, 1, 2, 3)] + [wr(2, 0, 0, 3, 20, 0, 8)]
    if thorough:
        out += [wr(0, 0, 0, 240, 1, 8), wr(2, 0, 1, 250, 1, 4), wr(2, 2, 2, 4, 7, 2)]
    out += [("p19_file", {"params": {"place": 1, "len": 1}}), ("p19_file", dict(big, params={"place": 8, "len": 1}))]
    out.append(("p19_long", {"max_steps": 1000000000, "params": {"place": 1, "len": 0, "size": 2200000 if thorough else 140000}}))
    for n in (1, 2, 3) if thorough else (1, 2):
        out += [("p19_bytes", {"params": {"start": k, "len": n}}) for k in range(11)]
    return out


NOT_APPLICABLE = {}

CHECKS = {
    "P01": dict(jobs=xml_jobs(("p01", "named"), lambda t, b: [{}]), bounds=XML_BOUND, assume=XML_ASSUME,
        explain="every structure: read(write(v)) = v, by symbolic execution of writer and reader over a symbolic value"),
    "P02": dict(jobs=xml_jobs(("p02", "names"), lambda t, b: [{}]), bounds=XML_BOUND, assume=XML_ASSUME,
        explain="every structure: write(v) = the element the schema prescribes (harness/src/spec.rs), over a symbolic value"),
    "P03": dict(jobs=xml_jobs(("p03", "texts"), p03_confs), bounds=XML_BOUND, assume=XML_ASSUME,
        explain="every structure: read(schema element of v) = v, with defaulted attributes absent or explicit and a comment at any position"),
    "P04": dict(jobs=jobs_any_element(("p04", "inlines")), bounds=ANY_BOUND, assume=ANY_ASSUME,
        explain="every reader symbolically executed over an arbitrary element (any name, any attributes, any children of any kind): no path panics or diverges"),
    "P05": dict(jobs=jobs_any_element(("p05",)), bounds=ANY_BOUND, assume=ANY_ASSUME, reach=False,
        explain="every reader symbolically executed over an arbitrary element: whenever it returns a value, the element has the structure's name, every attribute the schema requires, only attribute values the schema knows, and every child element is in the value"),
    "P06": dict(
        jobs=jobs_p06,
        explain="num_str(n) against the spelling rule written in the harness and read back, every value of every component over the full machine word; every string by length over all Unicode characters",
        bounds={"quick": "branch and range lists up to 3 numbers each; strings up to 4 characters",
                "thorough": "branch and range lists up to 6 numbers each; strings up to 7 characters"},
        assume=TRUST,
    ),
    "P07": dict(jobs=jobs_p07, assume=TRUST,
        explain="text(n) against the spelling rules written in the harness (kanji numerals, full-width digits), and parse_article_number(text(n)) = n, for the part, chapter, section, subsection, division, article and paragraph texts, by symbolic execution of both",
        bounds={"quick": "branch and range lists up to 1 number each, and of 2 and 3 with the other numbers fixed, every position in turn over everything the text can express (kanji 1..9999, full-width digits the full machine word), the others over two values",
                "thorough": "branch and range lists up to 2 numbers each, every position in turn over everything the text can express, the others over two values"}),
    "P08": dict(jobs=jobs_p08, assume=TRUST,
        explain="item_text(n, style) against the spelling of the style written in the harness, and parse_item_number(item_text(n, style)) gives the style, the label and the numbers back, all 16 styles, by symbolic execution of both",
        bounds={"quick": "branch and range lists up to 1 number each, and of 2 and 3 with the other numbers fixed, every position in turn over everything the style can express (kanji 1..9999, iroha 1..47, roman 1..399 alone and 1..49 in lists, letters 1..60, digits the full machine word), the others over two values",
                "thorough": "branch and range lists up to 2 numbers each, roman 1..399 up to two list numbers, letters 1..710"}),
    "SELF": dict(jobs=lambda tier, entries: [(e, {"params": {}}) for e in entries if e.startswith("st_")], assume=TRUST,
        explain="the engine's models of std against the real std (not a property; not in MANIFEST.json)", bounds={"quick": "strings of 1 to 3 characters"}),
    "P09": dict(jobs=jobs_p09, assume=TRUST,
        explain="the number parsers return on every string of bounded length",
        bounds={"quick": "every string of up to 3 characters", "thorough": "every string of up to 5 characters"}),
    "P10": dict(jobs=jobs_p10, assume=TRUST,
        explain="parse_text symbolically executed on texts of arbitrary characters and on every order of lines: it returns on every path (a path over the step bound is replayed natively with a time limit)",
        bounds={"quick": "every text of one line of up to 4 characters, two of up to 2, three of up to 1; every order of up to 3 lines of all kinds (items in three styles, blank lines) and of 2 after each of six beginnings; every order of 2 items of 15 styles, plain lines and paragraphs below 9, 10 and 11 nested items; one line of each of the 11 kinds with a text of 4 arbitrary characters",
                "thorough": "every text of one line of up to 6 characters, two of up to 3, three of up to 2; every order of up to 4 lines of all kinds and of 3 after each of six beginnings; every order of 3 items of 15 styles below 9, 10 and 11 nested items; one line of each kind with a text of 3, 5 and 7 arbitrary characters"}),
    "P11": dict(jobs=jobs_p11, assume=TRUST,
        explain="the law made by parse_text, flattened to lines with the headings around each, against rules written in the harness (harness/src/textlaw.rs), over every order of lines and all texts",
        bounds={"quick": "every order of up to 3 lines of the 11 kinds, alone and after beginnings of 3 lines, of 2 after beginnings of 5 or 6; numbers fixed by line; texts of two arbitrary characters",
                "thorough": "every order of up to 4 lines, and of 3 after each of six beginnings"}),
    "P12": dict(jobs=jobs_p12, assume=TRUST,
        explain="the items made by parse_text with their depth, against the nesting rule written in the harness, over every order of item lines by style",
        bounds={"quick": "every order of 4 lines over three styles, plain lines and new paragraphs; of 2 over all 15 styles; of 2 over all styles in use and two more below every depth from 2 to 11",
                "thorough": "every order of 5 lines over three styles; of 3 below every depth"}),
    "P13": dict(jobs=jobs_p13, assume=TRUST,
        explain="one line of symbolic marker numbers, text and white space in a text where it has a place; the law holds its kind, number and text",
        bounds={"quick": "markers with up to one branch and one range number of two values each (the number texts themselves are P07 and P08), texts of up to 4 characters, captions and amending-law names of up to 3, plain lines of up to 5, one or two white space characters at each place",
                "thorough": "markers with up to 2 list numbers of four values each, texts of up to 4 characters, captions and plain lines of up to 5"}),
    "P18": dict(jobs=lambda tier, entries: [("p18_date", {"params": {"types": t}}) for t in ((1, 7))], assume=TRUST + ["koyomi::Date::from_ymd is replaced by the calendar rule it implements (years 1000..9999, days of the month); koyomi::era is executed"],
        explain="parse_text over every year, month, day (full machine word, or absent), type, language and number",
        bounds={"quick": "none on the date; names and titles of two arbitrary characters; dates after the year 9999 only for the absence of a panic", "thorough": "as quick"}),
    "P14": dict(jobs=jobs_tree("p14"), assume=TRUST, bounds={"quick": "every tree of up to 4 headings, articles and paragraphs; below every chain of up to 5 nested headings every tree of up to 3 more; all numbers and titles",
                "thorough": "every tree of up to 5 headings, articles and paragraphs; below every chain of up to 5 nested headings every tree of up to 4 more; all numbers and titles"},
        explain="the listings against a walk of the tree written in the harness (harness/src/listing.rs)"),
    "P15": dict(jobs=jobs_tree("p15"), assume=TRUST, bounds={"quick": "every tree of up to 4 headings, articles and paragraphs; below every chain of up to 5 nested headings every tree of up to 3 more; all numbers and titles",
                "thorough": "every tree of up to 5 headings, articles and paragraphs; below every chain of up to 5 nested headings every tree of up to 4 more; all numbers and titles"},
        explain="the contents list against a walk of the tree written in the harness (harness/src/listing.rs)"),
    "P16": dict(jobs=jobs_p16, assume=TRUST,
        bounds={"quick": "one or two paragraphs; every tree of up to 2 items, and below every chain of items down to the tenth sub-item level one more anywhere, in five forms of text (one or two sentences, columns of one and several sentences, table); all numbers, all strings",
                "thorough": "one or two paragraphs; every tree of up to 3 items, and below every chain of items down to the tenth sub-item level two more anywhere, in five forms of text; all numbers, all strings"},
        explain="the listing against a walk of the tree written in the harness (harness/src/listing.rs)"),
    "P17": dict(jobs=jobs_p17, assume=TRUST,
        bounds={"quick": "sentences of up to 3, texts of up to 3 and tables of up to 3 parts per list, at most 3/4/5 parts present altogether; all strings",
                "thorough": "sentences of up to 4, texts of up to 5 and tables of up to 4 parts per list, at most 5/6/7 parts present altogether; all strings"},
        explain="rendering against rules written in the harness (harness/src/listing.rs)"),
    "P19": dict(jobs=jobs_p19, assume=TRUST + ["files are a table from path to bytes: a file is there, is not there, or cannot be read; HashMap order is insertion order"],
        bounds={"quick": "one text of up to 2 arbitrary characters XML carries at three of eight places of a law (law number, Kana attribute, start of the title) and of 1 at the other five; every write call of a small law fails in turn, in eight ways (seven error kinds, nothing taken), one call interrupted, at most 1, 2, 5 or any number of bytes taken at a time; a file of 9 kB and one of 140 kB; two arbitrary bytes after eleven beginnings",
                "thorough": "texts of 3 characters at three places and of 2 at all; every write call of a larger law fails in turn; a file of 2.2 MB; three arbitrary bytes after eleven beginnings"},
        explain="to_xml, write_file, parse_xml and parse_xml_file executed with the emitter and the parser of xmltree and xml-rs: what is written reads back as the law, a writer or file has the same bytes, failures are reported, no bytes panic"),
}
