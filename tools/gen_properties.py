#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so the wording stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

XMLF = ["src/law.rs","src/article.rs","src/paragraph.rs","src/class.rs","src/sentence.rs","src/text.rs","src/contents.rs","src/structs.rs","src/table.rs","src/list.rs","src/line.rs","src/fig.rs","src/remarks.rs","src/appdx.rs","src/suppl_provision.rs","src/table_of_contents.rs"]
HOOK = "src/verif_hooks.rs (cfg jlx_verif) exposes the crate-private element reader and writer per type"
p("P01","Writing a law value as XML and reading it back gives the same value",
  "For every kind of law structure the library can represent (law, provisions, articles, paragraphs, items and ten sub-item levels, tables, lists, figures, appendices, tables of contents, text), the XML element written for a value reads back as an equal value: no field, attribute or child is lost, swapped, renamed, duplicated or reordered, and reading does not fail.",
  ["inputs"],"every value of every law type: all field values, all enum variants, optional parts present or absent, child lists of any content within the stated length bound, unbounded nesting depth by structural induction",
  "The unit tests contain no XML round trip at all; whether a rarely used optional attribute or child of one of about 75 types survives depends on every combination of values, and a writer and reader living in separate functions drift apart silently.",
  XMLF,[("one writer and one reader per type","to_xml_element / parser in each type's module"),("attribute enums written and read as strings","src/law.rs, src/line.rs, src/table.rs, src/sentence.rs, src/text.rs")],
  ["return value of parse_xml(to_xml(v))","element trees"],HOOK)
p("P02","Written XML uses exactly the names and order of the national law schema",
  "Every structure is written with the element name, attribute names, attribute values and child order that the Japanese law XML schema (v3) prescribes for it, and with nothing else, so that other consumers of the standard can read the output.",
  ["inputs"],"every value of every law type within the stated list-length bound",
  "No test looks at written XML; a misspelt or paired-wrong tag (changed in both reader and writer) passes any round-trip test and only shows against the schema.",
  XMLF,[("writer of each type","to_xml_element in each module")],["element tree returned by the writer / to_xml output"],HOOK)
p("P03","Reading schema-shaped XML keeps every attribute and child, in order",
  "When an element conforms to the law schema, reading it succeeds and the resulting value contains every attribute value and every child of the element, each in its own field and in document order; absent optional parts become absent and absent defaulted attributes take the schema default.",
  ["inputs"],"every schema-shaped element: attributes present or absent, any text, child sequences within the length bound, in every order the schema allows",
  "The tests read no XML; a child type forgotten in one of the hundred dispatch arms, or an attribute read under another name, only shows on documents using it.",
  XMLF,[("reader of each type","parser in each module"),("attribute helpers","src/lib.rs get_attribute*")],["value returned by parse_xml"],HOOK)
p("P04","Reading XML never panics, whatever the element tree",
  "For any well-formed XML document - any element names, attributes (present, absent or nonsensical), text, comments, CDATA and children in any order - reading returns either a value or an error; it never panics.",
  ["inputs"],"every element tree (names, attribute maps, child node kinds arbitrary), child lists within the stated bound, depth unbounded by induction",
  "Tests feed no malformed documents; the panicking shapes (an article with no paragraph, a missing attribute behind an unwrap) are specific combinations no sample happens to hit.",
  XMLF+["src/lib.rs"],[("errors returned instead of unwrap","parser functions"),("attribute helpers return Err","src/lib.rs")],["return value or panic of parse_xml"],HOOK)
p("P05","Malformed XML is rejected, not silently altered",
  "Reading an element whose tag is not the expected one, that lacks a required attribute or the child it is built around (title, label, body, sentence), carries an attribute value the schema does not know, or contains a child element the structure has no place for or whose own reading fails, returns an error; it never yields a value that silently lacks that content, and every one of several children of a repeatable kind is in the value. Outside: running text (unknown inline elements in a title or label are skipped), Item and Subitem Num, Align, Valign, Border and WritingMode values (an unknown one counts as absent), an article, paragraph, contents entry or 附則 without title, number, sentence or label (read as empty), a part that may stand once standing twice (the last one counts).",
  ["inputs"],"every type and every single deviation (wrong tag, each required attribute missing or unparsable, an arbitrary unknown child at each position) on every otherwise schema-shaped element within bounds",
  "No negative XML test exists; the guarantee quantifies over all unknown names and positions.",
  XMLF+["src/result.rs","src/lib.rs"],[("fallthrough arms returning errors","parser functions"),("required attribute helper","src/lib.rs get_attribute")],["Result returned by parse_xml"],HOOK)
p("P06","Article numbers survive the Num attribute form",
  "For every article number with any branch numbers and any range end, the compact string form is the one of the schema (base and branches joined by _, then after a colon the last number of the range joined likewise) and parses back to the same number; distinct numbers have distinct strings; and parsing an arbitrary string returns a number or an error without panicking.",
  ["inputs"],"all base/branch/range values over the full machine word, branch and range lists within the stated length, and all strings up to the stated length for totality",
  "Tests use a handful of numbers and none with a range end.",
  ["src/article_number.rs"],[("compact form writer","ArticleNumber::num_str"),("compact form reader","ArticleNumber::from_num_str")],["returned strings and values"])
p("P07","Heading and article texts parse back to the number they were made from",
  "For every number with branch numbers and range end, the generated Japanese text for a part, chapter, section, subsection, division, article or paragraph is spelt as laws spell it (第…条の…から第…条の…まで in kanji numerals; full-width digits for paragraphs) and parses back to exactly that number; the same numbers written with ASCII or full-width digits, with or without a leading 第 and with の or ノ before branch numbers, are read as that number too.",
  ["inputs"],"base, branch and range values 1..9999 (kanji numerals) or the full machine word (full-width digits), list lengths within bound, all seven generated text kinds and the eight suffixes readers accept",
  "Three sample strings are tested, none with a range and none for paragraphs; kanji numeral rules (omitted one, zero digits) make 9999 distinct shapes.",
  ["src/article_number.rs"],[("text generators","ArticleNumber::*_text"),("text reader","parse_article_number")],["returned strings and values"])
p("P08","Item labels parse back to the number and style they were made from",
  "For every numbering style and every number the style can express, the generated item label (with branch numbers and range) is spelt in that style (kanji numerals, iroha order, full-width digits, roman numerals or letters; base and range in （） for the parenthesised styles, branches after の) and is parsed back as the same number, branches, range and style, and generating a label never panics in that domain.",
  ["inputs"],"all 16 styles, all numbers the style can express unambiguously (1..47 iroha, except の itself as a hiragana branch number; letters a, b, .., z, aa, .. unless spelt with i, v, x, l, c only, which read as roman numerals; roman 1..399, which the styles' letters I V X L C can spell; 1..9999 kanji; full-width digits of the full machine word), branch/range lists within bound",
  "One round of single labels is sampled by a test; ranges, branches, roman and letter styles are not.",
  ["src/article_number.rs"],[("label generator","ArticleNumber::item_text, ItemPattern"),("label reader","parse_item_number")],["returned strings and values"])
p("P09","Number-text parsers return normally on every string",
  "Parsing any string as an article number, an item number or a number-plus-text line returns a value or none; it never panics, however long, mixed or overflowing the digits, kana or letters are.",
  ["inputs"],"all strings up to the stated length over all Unicode characters (each class the patterns distinguish), plus arbitrarily long digit runs",
  "Panics need specific two-character kana, unusual letters or over-long digit runs that no test contains.",
  ["src/article_number.rs"],[("regex-guarded conversions","parse_article_number, parse_item_number, split_number")],["return or panic"])
p("P10","Parsing plain text always terminates without panicking",
  "For every title and every multi-line text, building a law from text finishes and returns a law or an error; it never loops forever and never panics, whatever the order of headings, captions, articles, paragraphs, items, supplementary provisions and plain lines.",
  ["inputs","histories"],"every sequence of line kinds up to the stated number of lines, arbitrary text in each",
  "Non-termination and unreachable-code panics depend on particular line orders; tests use two well-formed samples.",
  ["src/parse_from_text.rs","src/lib.rs"],[("line loop advancing on every arm","parse_body"),("marker stack","parse_paragraph and sub-item functions")],["termination and result of parse_text"])
p("P11","Parsing plain text keeps every line, in order, under its heading",
  "When building a law from text succeeds, every non-blank line of the text appears in the law exactly once and in order (a 附則 line with nothing after it is left out): headings become the nested part/chapter/section/subsection/division structure that encloses the lines up to the next heading of the same or higher level, articles, paragraphs and items carry their numbers and texts (削除 marks a heading, article or item deleted), a caption directly before an article or paragraph attaches to it and is a plain line otherwise, plain lines before anything else form the preamble, later ones continue the preceding block as its further sentences (or are the unnumbered paragraph 1 of a 附則), and everything after a supplementary-provision line belongs to that supplementary provision. It succeeds whenever each line has a place the schema provides for; a line without a place is an error or is kept in order, never dropped.",
  ["inputs","histories"],"every sequence of line kinds in heading order up to the stated number of lines, arbitrary numbers and text",
  "The quantifier is over document shapes; the tests check two.",
  ["src/parse_from_text.rs"],[("recursive descent over classified lines","parse_body, parse_part ... parse_paragraph")],["law value returned by parse_text"])
p("P12","Items nest by numbering style and return to the right level",
  "Within a paragraph, an item line in a style not used by its enclosing items opens one deeper level, and a line in the style of an enclosing level continues that level as a sibling; item numbers and texts are kept in order at every depth, down to the eleven levels the schema has (a twelfth is an error).",
  ["inputs","histories"],"every sequence of item styles up to the stated number of lines",
  "Returning over two or more levels at once needs specific sequences (一 イ （１） 二) absent from the tests.",
  ["src/parse_from_text.rs"],[("style comparison between levels","parse_paragraph, parse_subitem1..10")],["paragraph value returned by parse_text"])
p("P13","A line is classified by its marker and its text is kept verbatim",
  "A trimmed line is a caption when it is one parenthesised phrase (and stands before an article or paragraph), a heading/article/paragraph/item when its first word is the corresponding number marker and white space and text follow, a supplementary-provision line when it is the word 附則 (with or without white space in it) with or without the amending law's number in parentheses, and plain text when it begins with none of these; the number and the remaining text are kept unchanged. (Words that only begin with a marker, such as 第四条及び第五条, are outside this property.)",
  ["inputs"],"marker kinds with symbolic numbers, separators and arbitrary remaining text",
  "Classification runs five regular expressions in order over unbounded text; tests classify fourteen lines.",
  ["src/parse_from_text.rs","src/article_number.rs"],[("ordered regular expressions","parse_line_contents, split_number")],["law value returned by parse_text for a one-line text"])
p("P14","Article listings contain every article once, in order, with its ancestors",
  "Listing the articles of the main or a supplementary provision returns each article exactly once in document order, labelled with precisely the numbers of the part, chapter, section, subsection and division that enclose it (and none it is not in), and the paragraphs outside articles grouped between article-bearing children in order.",
  ["inputs"],"every provision tree within list-length bounds at every level, arbitrary numbers",
  "No test lists articles; a wrong ancestor number needs a particular nesting to show.",
  ["src/utils.rs"],[("recursive listing","with_number_article_list_from_*, article_list_from_*")],["returned lists"])
p("P15","Table-of-contents entries carry exactly their own ancestors' numbers",
  "The generated contents list has one entry per heading and article in document order, and each entry carries its title and the numbers of itself and its enclosing headings only - never a number left over from a preceding sibling.",
  ["inputs"],"every provision tree within list-length bounds",
  "No test covers it; leftovers appear only with particular sibling sequences.",
  ["src/utils.rs"],[("entry state threaded through the recursion","toc_list_from_*")],["returned list"])
p("P16","Text listings contain every sentence block once, in order, with its index path",
  "Listing the texts of paragraphs yields one entry per paragraph, item and sub-item in document order, each with its own text (sentences run together, column sentences separated by spaces, tables rendered), the paragraph number and the path of item numbers leading to it, at all ten sub-item levels; the joined article text is those texts separated by newlines.",
  ["inputs"],"every paragraph tree within list-length bounds, all sub-item depths, all three sentence forms",
  "One small sample is tested; the ten levels are ten separate functions.",
  ["src/utils.rs"],[("one function per level","text_info_list_from_paragraph, text_list_from_subitem1..10")],["returned list and strings"])
p("P17","Plain-text rendering keeps all text and marks sub/superscripts",
  "Rendering a sentence to a string concatenates all its text in order, including that of formulas and quotations, leaves out only lines and embedded structures that have no plain text (figures, tables and provisions inside formulas and quotations), keeps the base text of ruby, and writes superscripts as ^{..} and subscripts as _{..}; a title or other text renders as its characters without markup; a table renders as its header texts on the first line and then one line per row, columns separated by a space.",
  ["inputs"],"every sentence/table/text value within list-length bounds, arbitrary strings",
  "Documented rule over all element kinds; tests cover a plain string.",
  ["src/utils.rs","src/text.rs"],[("element match","sentence_element_to_str, table_to_str, Text::to_string")],["returned strings"])
p("P18","A law built from text has the era of its promulgation date",
  "For every valid date from the Meiji era on, building a law from text records the Japanese era in force on that date together with the given year, month, day, type, language, numbers and title; an invalid or earlier date is reported as an error rather than a panic.",
  ["inputs"],"every year/month/day triple (all machine values), every law type and language",
  "Era boundaries fall on five specific days; tests build no law with a date.",
  ["src/lib.rs"],[("era lookup","parse_text")],["law value or error returned by parse_text"])
p("P19","A law survives the XML byte stream, in memory, through a writer and in a file",
  "The XML text to_xml makes of a law reads back through parse_xml as the same law, whatever characters XML can carry (tabs, line breaks, quotes, angle brackets and ampersands included; a text of white space alone excepted) its texts and attributes hold. write_file gives a writer the bytes of that text (the order of attributes in a tag is left open), however few the writer takes at a time and when a call is interrupted; when the writer fails, write_file returns an error and what was written is a beginning of the text, and it returns an error only then. parse_xml_file of a file returns what parse_xml of its bytes returns, for files of any length, and an error for a file that is missing or cannot be read. parse_xml and parse_xml_file never panic, whatever the bytes.",
  ["inputs","fault_sequences"],"every law value, every writer failure position, every byte sequence",
  "Tests read three fixed files and write none; no writer fails, none takes less than it is given, and no text holds a character that needs escaping.",
  ["src/lib.rs"],[("shared emitter configuration","to_xml, write_file"),("in-memory writer","WritableString"),("file reader","parse_xml_file")],["law read back, bytes written, error returned"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
