"""What each check runs: features, harnesses and their bounds."""


def H(h, bounds="", **kw):
    return dict(h=h, bounds=bounds, **kw)


DEV = ("A message generator starts from a default message of every kind and deviates from it in up to D places "
       "(another alternative of a field, an optional part, an extra list element, a string with symbolic content); "
       "every combination is explored, string bytes and numbers are symbolic.")
CORPUS = ("about 190 well-formed messages that use every production of the grammar; a window of symbolic bytes is put at "
          "every offset of every message")

PROPS = {
    "C01": dict(
        features=["c01"],
        bounds=DEV,
        outside="more deviations or longer symbolic strings than stated; Search keys nested deeper than 7, "
                "lists of more than 1000 elements, strings of more than 65540 bytes",
        quick=[
            H("h_c01_two", "every command kind; up to 2 deviations; deviating strings of 0-1 "
                           "symbolic bytes or one symbolic byte repeated 130-300 times"),
            H("h_c01_one", "every command kind; 1 deviation; strings of up to 3 symbolic bytes",
              configs=["default", "strict"]),
            H("h_c01_rich1", "messages with every optional part and lists of several elements; 1 deviation (a part missing, "
                             "a list of 1 or 12 elements, another alternative, a string of up to 2 symbolic bytes)"),
            H("h_c01_many1", "every list with one element or with 130 elements, 1 deviation"),
            H("h_c01_long1", "one string of 4100 bytes with an arbitrary last byte, 1 deviation"),
            H("h_c01_huge0", "one string of 65540 bytes with an arbitrary last byte"),
            H("h_c01_many0", "one list of 1000 elements"),
        ],
        thorough=[
            H("h_c01_two2", "2 deviations, strings of up to 2 symbolic bytes"),
            H("h_c01_one4", "1 deviation, strings of up to 4 symbolic bytes"),
            H("h_c01_rich2", "as rich1 with 2 deviations, strings of up to 1 symbolic byte", time=600),
            H("h_c01_three", "3 deviations, strings of up to 1 symbolic byte"),
        ],
    ),
    "C02": dict(
        features=["c02"],
        bounds=DEV,
        outside="more deviations or longer symbolic strings than stated; body structures nested deeper than 3",
        quick=[
            H("h_c02_two", "every data response kind; up to 2 deviations; strings of 0-1 symbolic bytes or one repeated byte"),
            H("h_c02_one", "1 deviation; strings of up to 3 symbolic bytes", configs=["default", "strict"]),
            H("h_c02_rich1", "responses with every optional part and lists of several elements; 1 deviation"),
            H("h_c02_many1", "every list with one element or with 130 elements, 1 deviation"),
            H("h_c02_long1", "one string of 4100 bytes with an arbitrary last byte, 1 deviation"),
            H("h_c02_huge0", "one string of 65540 bytes with an arbitrary last byte"),
            H("h_c02_many0", "one list of 1000 elements"),
        ],
        thorough=[
            H("h_c02_two2", "2 deviations, strings of up to 2 symbolic bytes"),
            H("h_c02_one4", "1 deviation, strings of up to 4 symbolic bytes"),
            H("h_c02_rich2", "as rich1 with 2 deviations, strings of up to 1 symbolic byte", time=900),
            H("h_c02_three", "3 deviations, strings of up to 1 symbolic byte"),
        ],
    ),
    "C03": dict(
        features=["c03"],
        bounds=DEV,
        outside="more deviations or longer symbolic strings than stated; texts that start with '[' without a code; "
                "referral codes",
        quick=[
            H("h_c03_two", "2 deviations, strings of up to 3 symbolic bytes", configs=["default", "strict"]),
            H("h_c03_four", "4 deviations, strings of up to 1 symbolic byte"),
            H("h_c03_rich2", "lists of several elements, 2 deviations, strings of up to 2 symbolic bytes"),
            H("h_c03_many1", "every list with one element or with 130 elements, 1 deviation"),
            H("h_c03_long1", "one string of 4100 bytes with an arbitrary last byte, 1 deviation"),
            H("h_c03_huge0", "one string of 65540 bytes with an arbitrary last byte"),
            H("h_c03_many0", "one list of 1000 elements"),
        ],
        thorough=[
            H("h_c03_four", "4 deviations, strings of up to 1 symbolic byte"),
            H("h_c03_three3", "3 deviations, strings of up to 3 symbolic bytes"),
        ],
    ),
    "C04": dict(
        features=["c04"],
        bounds="five decoders; (a) every byte string of length 6, 8, 10 (thorough: 12, 14); (b) " + CORPUS,
        outside="windows wider than stated, messages that differ from the corpus in several separate places",
        quick=[
            H("h_c04_raw6", "every input of 6 bytes", need=["r1", "r2"]),
            H("h_c04_raw8", "every input of 8 bytes", need=["r1", "r2"]),
            H("h_c04_raw10", "every input of 10 bytes", need=["r1", "r2"]),
            H("h_c04_del", "corpus, any one byte deleted", need=["r1", "r2"]),
            H("h_c04_rep1", "corpus, any byte replaced by any byte", need=["r1", "r2"]),
            H("h_c04_ins1", "corpus, any byte inserted anywhere", need=["r1", "r2"]),
            H("h_c04_rep2", "corpus, any 2 adjacent bytes replaced", need=["r1", "r2"]),
            H("h_c04_ins2", "corpus, any 2 bytes inserted", need=["r1", "r2"]),
            H("h_c04_rep3", "corpus, any 3 adjacent bytes replaced", need=["r1", "r2"]),
            H("h_c04_date", "dates, times and zones with symbolic digits", need=["r1", "r2"]),
            H("h_c04_num", "every number field, symbolic last digits around 2^32, 2^63, 2^64", need=["r1", "r2"]),
        ],
        thorough=[
            H("h_c04_rep2", "corpus, any 2 adjacent bytes replaced", need=["r1", "r2"], configs=["strict", "all"]),
            H("h_c04_raw8", "every input of 8 bytes", need=["r1", "r2"], configs=["strict", "all"]),
            H("h_c04_ins3", "corpus, any 3 bytes inserted", need=["r1", "r2"]),
            H("h_c04_raw12", "every input of 12 bytes", need=["r1", "r2"], time=500),
            H("h_c04_raw14", "every input of 14 bytes", need=["r1", "r2"], time=900),
        ],
    ),
    "C05": dict(
        features=["c05"],
        bounds=DEV + " Every proper prefix of the encoded message is decoded, and the message followed by 2 symbolic bytes. "
               "Also: " + CORPUS + ", comparing the answers for all prefixes that end in or behind the window with the "
               "answer for the whole.",
        outside="longer strings, more deviations, wider windows",
        quick=[
            H("h_c05_cmd", "commands, 1 deviation, strings of up to 1 symbolic byte"),
            H("h_c05_rsp", "responses, 1 (status: 3) deviations, strings of up to 1 symbolic byte"),
            H("h_c05_oth", "greetings, authentication data, DONE"),
            H("h_c05_raw6", "all prefixes of every input of 6 bytes", need=["r1", "r2", "r3", "r4"]),
            H("h_c05_raw9", "all prefixes of every input of 9 bytes", need=["r1", "r2", "r3", "r4"]),
            H("h_c05_rep1", "corpus, any byte replaced by any byte, all prefixes behind it", need=["r1", "r2", "r3", "r4", "r5"]),
        ],
        thorough=[
            H("h_c05_ins1", "corpus, any byte inserted", need=["r1", "r2", "r3", "r4", "r5"]),
            H("h_c05_cmd2", "commands, 1 deviation, strings of up to 2 symbolic bytes"),
            H("h_c05_rsp2", "responses, 1 deviation, strings of up to 2 symbolic bytes"),
            H("h_c05_oth2", "greetings, authentication data, 2 deviations"),
            H("h_c05_rep2", "corpus, any 2 adjacent bytes replaced", need=["r1", "r2", "r3", "r4", "r5"], time=1500),
        ],
    ),
    "C06": dict(
        features=["c06"],
        bounds="five decoders; every input of 6 bytes (thorough: 8, 10); " + CORPUS,
        outside="wider windows; in the quick tier, 2-byte windows in messages that contain a date",
        quick=[
            H("h_c06_raw6", "every input of 6 bytes"),
            H("h_c06_rep1", "corpus, any byte replaced by any byte", configs=["default", "strict"]),
            H("h_c06_ins1", "corpus, any byte inserted"),
            H("h_c06_rep2n", "corpus without dates, any 2 adjacent bytes replaced"),
            H("h_c06_num", "every number field, symbolic last digit around 2^32, 2^63, 2^64"),
            H("h_c06_date", "dates, times and zones with symbolic digits"),
        ],
        thorough=[
            H("h_c06_ins1", "corpus, any byte inserted", configs=["strict", "all"]),
            H("h_c06_date2", "dates, times and zones with more symbolic digits", time=300),
            H("h_c06_ins2n", "corpus without dates, any 2 bytes inserted"),
            H("h_c06_rep3n", "corpus without dates, any 3 adjacent bytes replaced", time=900),
            H("h_c06_raw8", "every input of 8 bytes", time=600),
            H("h_c06_rep2", "corpus, any 2 adjacent bytes replaced", time=900),
        ],
    ),
    "C07": dict(
        features=["c07"],
        bounds=DEV,
        outside="more deviations or longer symbolic strings; a response whose free text ends in a literal announcement",
        quick=[
            H("h_c07_cmd1", "commands, 1 deviation, strings of up to 3 symbolic bytes", need=["r1", "r2"]),
            H("h_c07_rsp1", "responses, 1 deviation, strings of up to 3 symbolic bytes", need=["r1", "r2"]),
            H("h_c07_cmd2", "commands, 2 deviations, strings of up to 1 symbolic byte", need=["r1", "r2"]),
            H("h_c07_rsp2", "responses, 2 deviations, strings of up to 1 symbolic byte", need=["r1", "r2"]),
        ],
        thorough=[
            H("h_c07_cmd22", "commands, 2 deviations, strings of up to 2 symbolic bytes", need=["r1", "r2"]),
            H("h_c07_rsp22", "responses, 2 deviations, strings of up to 2 symbolic bytes", need=["r1", "r2"]),
        ],
    ),
    "C08": dict(
        features=["c08"],
        bounds="streams of 6 (thorough: 7) arbitrary bytes in one piece, byte by byte or with one cut at any place; six "
               "multi-message streams with any byte replaced by any byte and any cut; size limits 0..n+1; poisoning and "
               "skipping at any two steps; announced lengths with symbolic digits",
        outside="longer arbitrary streams, more than one symbolic window, more than one poison or skip",
        quick=[
            H("h_c08_raw6", "every stream of 6 bytes, every cut", need=["r1", "r5"]),
            H("h_c08_lim4", "every stream of 4 bytes, every size limit 0..5", need=["r1", "r5"]),
            H("h_c08_lim5", "every stream of 5 bytes, every size limit 0..6", need=["r1", "r5"]),
            H("h_c08_str1", "six streams, any byte replaced, any cut; decoding included", need=["r1", "r3", "r5"]),
            H("h_c08_hist", "six streams, four cuts, three limits, poison and skip at any step", need=["r1", "r4", "r6", "r7"]),
            H("h_c08_dig", "announced lengths: up to 2 symbolic digits, alone, behind 429496, behind zeros", need=["r1", "r5"]),
            H("h_c08_line2", "beginnings and ends of announcements with any 2 bytes in between", need=["r1", "r5"]),
            H("h_c08_long", "lines and literals of 4095..4097 bytes with arbitrary bytes in them, size limits next to their end", need=["r1", "r5"]),
            H("h_c08_long16", "the same with 65535..65537 bytes", need=["r1", "r5"]),
        ],
        thorough=[
            H("h_c08_line3", "beginnings and ends of announcements with any 3 bytes in between", need=["r1", "r5"]),
            H("h_c08_raw7", "every stream of 7 bytes, every cut", need=["r1", "r5"]),
            H("h_c08_lim6", "every stream of 6 bytes, every size limit 0..7", need=["r1", "r5"]),
            H("h_c08_hist1", "as the quick history check, with any byte replaced", need=["r1", "r4", "r6", "r7"], time=600),
            H("h_c08_str2", "six streams, any 2 adjacent bytes replaced, any cut", need=["r1", "r3", "r5"], time=900),
            H("h_c08_dig4", "announced lengths with up to 4 symbolic digits", need=["r1", "r5"], time=600),
        ],
    ),
    "C09": dict(
        features=["c09"],
        bounds=DEV + " Of messages with literals, every prefix from the first announcement on (2 deviations: those next to "
               "announcements). Corpus messages cut behind each announcement, with a window of symbolic bytes anywhere; "
               "announced lengths with symbolic digits.",
        outside="wider windows, more deviations",
        quick=[
            H("h_c09_cmd", "commands, 2 deviations, strings of up to 1 symbolic byte", need=["r1", "r2", "r3"]),
            H("h_c09_rsp", "responses, 2 deviations, strings of up to 1 symbolic byte", need=["r1", "r2", "r3"]),
            H("h_c09_cmd2", "commands, 1 deviation, strings of up to 3 symbolic bytes", need=["r1", "r2", "r3"]),
            H("h_c09_rsp2", "responses, 1 deviation, strings of up to 3 symbolic bytes", need=["r1", "r2", "r3"]),
            H("h_c09_len", "announced lengths next to 0, 4294967295, 10^10", need=["r1", "r2"]),
            H("h_c09_cut1", "corpus cut behind an announcement, any byte replaced", need=["r1", "r2"],
              configs=["default", "strict"]),
            H("h_c09_ins1", "corpus cut behind an announcement, any byte inserted", need=["r1", "r2"]),
            H("h_c09_cut2", "corpus cut behind an announcement, any 2 bytes replaced", need=["r1", "r2"]),
            H("h_c09_lenc", "announced lengths of every command with literals", need=["r1", "r2"]),
            H("h_c09_raw8", "every input of 8 bytes", need=["r2"]),
        ],
        thorough=[
            H("h_c09_cut3", "corpus cut behind an announcement, any 3 bytes replaced", need=["r1", "r2"]),
            H("h_c09_raw10", "every input of 10 bytes", need=["r2"]),
            H("h_c09_cut2", "corpus cut behind an announcement, any 2 bytes replaced", need=["r1", "r2"],
              configs=["strict", "all"]),
        ],
    ),
    "C12": dict(
        features=["c12"],
        bounds="sets of up to 2 (thorough: 3) sequences with arbitrary 32-bit numbers; iteration over sets of up to 2 "
               "(thorough: 3) sequences within 3 numbers at either end of the number range; every text of up to 5 bytes "
               "and texts with numbers next to 4294967295; every value of every integer type in conversions",
        outside="larger sets, longer texts, iteration over longer ranges",
        quick=[
            H("h_c12_norm2", "normalize: up to 2 sequences, any numbers and *"),
            H("h_c12_iter", "iter, iter_naive: up to 2 sequences, numbers within 1..3 or 4294967293..4294967295, any largest"),
            H("h_c12_num", "conversions from every integer type, from ranges and lists of them"),
            H("h_c12_text3", "every text of 3 bytes", need=["r1", "r2"]),
            H("h_c12_text4", "every text of 4 bytes", need=["r1", "r2"]),
            H("h_c12_text5", "every text of 5 bytes", need=["r1", "r2"]),
            H("h_c12_big", "numbers with symbolic digits next to 4294967295, with signs and zeros", need=["r1", "r2"]),
            H("h_c12_order", "order of two sequences, any numbers"),
        ],
        thorough=[
            H("h_c12_iter3", "iter, iter_naive: up to 3 sequences", time=900),
            H("h_c12_norm3n", "normalize: up to 3 sequences, numbers within 255 of the ends of the number range", time=1500),
            H("h_c12_text6", "every text of 6 bytes", need=["r1", "r2"]),
        ],
    ),
    "C13": dict(
        features=["c13"],
        bounds="ten contexts; any level kinds up to depth 3 and any alternating pair of kinds up to depth 4 (accepted); "
               "any alternating pair of kinds at depths 16, 25 (thorough: 41, 200), with symbolic bytes at the innermost "
               "place, closed or truncated (rejected); depth 17 with any byte replaced (thorough: inserted) anywhere: "
               "what is accepted is not deep",
        outside="nesting patterns of period greater than 2",
        quick=[
            H("h_c13_shallow", "depth 0..4, accepted"),
            H("h_c13_deep", "depth 16 and 25, rejected"),
            H("h_c13_deep2", "depth 16 and 41 with 2 symbolic bytes, rejected"),
            H("h_c13_long", "depth 200, rejected"),
            H("h_c13_rep", "depth 17, any byte replaced by any byte", need=["r1", "r2"]),
        ],
        thorough=[
            H("h_c13_ins", "depth 17, any byte inserted"),
            H("h_c13_deep1", "depth 16 and 25 with a symbolic byte, rejected"),
            H("h_c13_rep2", "depth 17, any 2 adjacent bytes replaced", time=900),
        ],
    ),
    "C10": dict(
        features=["c10"],
        bounds="every string of up to 5 bytes, and strings of 130 to 65537 bytes with one arbitrary byte; every list of up to 3 "
               "elements; every character; every value of the integer arguments",
        outside="longer strings with more than one unusual byte; dates other than the years next to the limits",
        quick=[
            H("h_c10_str4", "constructors of all string types: every string of up to 4 bytes", need=["r1", "r2"],
              configs=["default", "strict"]),
            H("h_c10_str5", "constructors of all string types: every string of up to 5 bytes", need=["r1", "r2"]),
            H("h_c10_name4", "names (flags, capabilities, mechanisms, ...): every string of up to 4 bytes", need=["r1", "r2"]),
            H("h_c10_cont4", "continuation requests: every text of up to 4 bytes", need=["r1", "r2"]),
            H("h_c10_cont8", "continuation requests: every text of up to 8 bytes", need=["r1", "r2"]),
            H("h_c10_long", "strings of 130, 257, 1025, 4100 bytes with one arbitrary byte", need=["r1", "r2"]),
            H("h_c10_long16", "strings of 65537 bytes with one arbitrary byte", need=["r1", "r2"]),
            H("h_c10_small", "quoted characters, list lengths, numbers, dates and times", need=["r1", "r2"]),
        ],
        thorough=[
            H("h_c10_str5", "as quick, without quirks", need=["r1", "r2"], configs=["strict", "all"]),
            H("h_c10_name4", "as quick, without quirks", need=["r1", "r2"], configs=["strict", "all"]),
        ],
    ),
    "C11": dict(
        features=["c11"],
        bounds="every string of up to 4 bytes (thorough: 5); five arbitrary bytes as mailbox name; escaping of up to 6 bytes",
        outside="longer strings",
        quick=[
            H("h_c11_choose4", "representation of every string of up to 4 bytes"),
            H("h_c11_five", "mailbox names of five arbitrary bytes: INBOX or not", need=["r1", "r2"]),
            H("h_c11_wire", "mailboxes of five arbitrary bytes in every command and response that has one, in every "
                            "representation", need=["r1", "r2"], configs=["default", "strict"]),
            H("h_c11_escape6", "escaping and unescaping of up to 6 bytes, directly and on the wire"),
            H("h_c11_print2", "printable form of any 2 bytes"),
            H("h_c11_turn5", "conversions between string types, up to 5 bytes"),
        ],
        thorough=[
            H("h_c11_choose5", "representation of every string of up to 5 bytes", time=900),
        ],
    ),
    "C15": dict(
        features=["c15"],
        bounds="messages that use every keyword of the grammar, each letter in either case (symbolic), and alternative "
               "spellings of the same message; every name of the length of a known name with any 2 adjacent bytes "
               "replaced and all letters in any case",
        outside="names that differ from the known ones in more than 2 adjacent bytes",
        quick=[
            H("h_c15_wire", "all keywords in any case; alternative spellings", configs=["default", "strict", "all"]),
            H("h_c15_names", "names of flags, capabilities, mechanisms, ... in any case", need=["r1", "r2"]),
        ],
        thorough=[
            H("h_c15_names", "without quirks", need=["r1", "r2"], configs=["strict", "all"]),
        ],
    ),
    "C14": dict(
        features=["c14"],
        bounds=DEV + " " + CORPUS,
        outside="more deviations, longer symbolic strings or wider windows than stated",
        quick=[
            H("h_c14_gen1", "every message kind, 1 deviation, strings of up to 2 symbolic bytes"),
            H("h_c14_rich1", "messages with every optional part, 1 deviation"),
            H("h_c14_rep1", "corpus with any byte replaced", need=["r1", "r3"]),
            H("h_c14_cut", "corpus cut off anywhere", need=["r1", "r2", "r3"]),
            H("h_c14_raw6", "every line of up to 6 arbitrary bytes", need=["r1", "r3"]),
            H("h_c14_date", "date and time templates", need=["r1", "r3"]),
        ],
        thorough=[
            H("h_c14_gen2", "2 deviations, strings of up to 1 symbolic byte", time=900),
            H("h_c14_raw8", "every line of up to 8 arbitrary bytes", need=["r1", "r3"]),
        ],
    ),
    "C16": dict(
        features=["c16"], profile="shipped", replay_profile="shipped",
        bounds="passwords, initial responses, authentication data and other wrapped values of up to 2 arbitrary bytes, or "
               "long with one arbitrary byte, built or received; rejected messages with secrets; release build",
        outside="values longer than that; what the application prints itself; debug builds, which show secrets by design",
        quick=[
            H("h_c16_built1", "secrets of 0, 1 and 39 bytes"),
            H("h_c16_built2", "secrets of up to 2 and 39 bytes"),
            H("h_c16_received", "decoded messages", need=["r1", "r2"]),
            H("h_c16_fragments", "errors of the fragmentizer"),
            H("h_c16_kept", "secrets are compared, exposed and sent unchanged"),
        ],
        thorough=[],
    ),
    "C17": dict(
        features=["c17", "tag_generator"], profile="shipped", replay_profile="shipped", replays=20,
        bounds="every history of 6 (and 8) steps of up to 3 generators; generators of any age; 120 tags of two generators; two threads",
        outside="longer histories; three threads; generators of different processes (these differ by chance only)",
        quick=[
            H("h_c17_hist6", "6 steps, up to 3 generators"),
            H("h_c17_hist8", "8 steps, up to 3 generators"),
            H("h_c17_long", "120 tags"),
            H("h_c17_threads", "two threads that make generators and tags: one runs as a whole before any access to shared "
                               "memory of the other, or after it"),
            H("h_c17_aged", "generators of any age: instance and counter arbitrary within 256 of twelve base values and "
                            "of these plus 0, 2^8, 1000, 2^16, 2^31, 2^32, 2^63"),
        ],
        thorough=[],
    ),
    "C18": dict(
        features=["c18"],
        bounds="93 messages with 250 fields between them: strings (every kind, in every form) of 1 to 4 arbitrary bytes; "
               "numbers of 1 to 3 arbitrary bytes or next to 0, 2^32, 2^63, 2^64 with 1 to 3 symbolic digits; base64 of 4, 5, 8 "
               "and 12 arbitrary bytes; dates and times with 1 to 3 arbitrary bytes anywhere",
        outside="several unusual fields in one message; longer fields; numbers between 2^63 and 2^64 where 64 bits are "
                "allowed, leading zeros, zones with more than 59 minutes, leap seconds, NUL in UTF-8 strings (either answer)",
        quick=[
            H("h_c18_templates", "every message with ordinary fields", configs=["default", "strict", "all"], need=["r1"]),
            H("h_c18_spaces", "a space inserted anywhere outside of strings is rejected (no quirks)", configs=["strict"], need=["r2"]),
            H("h_c18_str1", "strings of 1 byte", need=["r1", "r2"], configs=["default", "strict"]),
            H("h_c18_str2", "strings of 2 bytes", need=["r1", "r2"]),
            H("h_c18_str3", "strings of 3 bytes", need=["r1", "r2"]),
            H("h_c18_str4", "strings of 4 bytes", need=["r1", "r2"]),
            H("h_c18_raw1", "1 byte as number", need=["r1", "r2"], configs=["default", "strict"]),
            H("h_c18_raw2", "2 bytes as number", need=["r1", "r2"]),
            H("h_c18_raw3", "3 bytes as number", need=["r1", "r2"]),
            H("h_c18_lim1", "numbers next to the limits, 1 symbolic digit", need=["r1", "r2"], configs=["default", "strict"]),
            H("h_c18_lim2", "2 symbolic digits", need=["r1", "r2"]),
            H("h_c18_lim3", "3 symbolic digits", need=["r1", "r2"]),
            H("h_c18_base4", "base64 of 4 bytes", need=["r1", "r2"]),
            H("h_c18_base5", "base64 of 5 bytes", need=["r2"]),
            H("h_c18_base8", "base64 of 8 bytes", need=["r1", "r2"]),
            H("h_c18_base12", "base64 of 12 bytes", need=["r1", "r2"]),
            H("h_c18_date2", "dates with 2 arbitrary bytes", need=["r1", "r2"]),
            H("h_c18_date3", "dates with 3 arbitrary bytes", need=["r1", "r2"]),
            H("h_c18_time2", "times with 2 arbitrary bytes", need=["r1", "r2"]),
            H("h_c18_time3", "times with 3 arbitrary bytes", need=["r1", "r2"]),
        ],
        thorough=[
            H("h_c18_str3", "as quick, other configurations", need=["r1", "r2"], configs=["strict", "all"]),
            H("h_c18_lim2", "as quick, other configurations", need=["r1", "r2"], configs=["strict", "all"]),
            H("h_c18_date2", "as quick, other configurations", need=["r1", "r2"], configs=["strict", "all"]),
        ],
    ),
    "C19": dict(
        features=["c19"],
        bounds="each quirk in every message that it concerns, with symbolic digits, characters and numbers of spaces; line breaks "
               "of every corpus message relaxed in one or all places; three configurations: no quirks, default quirks, all quirks",
        outside="other combinations of quirk features; longer numbers and strings",
        quick=[
            H("h_c19_decoding", "irregular spellings", configs=["default", "strict", "all"]),
            H("h_c19_breaks", "LF in place of CRLF, in one place or everywhere: rejected", configs=["default", "strict"],
              need=["r2"]),
            H("h_c19_breaks", "LF in place of CRLF, in one place or everywhere: accepted", configs=["all"]),
            H("h_c19_nobreak", "anything in place of a CR", configs=["default", "strict"], need=["r2"]),
        ],
        thorough=[],
    ),
}
