#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CODEC = "imap-codec/src/"
TYPES = "imap-types/src/"
P = []


def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), note=""):
    assert len(title) <= 80, title
    P.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))
    NOTES[id] = note


NOTES = {}

prop("C01", "Commands survive encoding and decoding",
     "Every command value that the public constructors can build encodes to bytes which decode, completely and without "
     "remainder, to an equal command; encoding the decoded command again gives the same bytes.",
     ["inputs"], "all commands of all kinds, with all combinations of optional parts, all string contents and numbers",
     "The tests encode and decode a fixed list of sample commands; the property is about every combination of command "
     "kind, argument shape and string content.",
     [CODEC + "codec/encode.rs", CODEC + "command.rs", CODEC + "core.rs", CODEC + "search.rs", CODEC + "fetch.rs",
      CODEC + "extensions/", TYPES + "command.rs", TYPES + "core.rs", TYPES + "auth.rs"],
     [("encoders", CODEC + "codec/encode.rs"), ("command parser", CODEC + "command.rs: command")],
     observe=["CommandCodec::encode", "CommandCodec::decode", "PartialEq of Command"],
     note="Excluded: encoder input that the documentation rules out (unfinished referrals, QuotedUtf8 values that are "
          "plain ASCII or contain NUL, CR or LF).")

prop("C02", "Data responses survive encoding and decoding",
     "Every untagged data response value that the public constructors can build encodes to bytes which decode, "
     "completely and without remainder, to an equal response; encoding that again gives the same bytes.",
     ["inputs"], "all data responses of all kinds (capabilities, lists, searches, fetch items, envelopes, body "
     "structures, extensions), with all combinations of optional parts and string contents",
     "The tests use fixed sample responses; combinations of fetch items, body structure shapes, extension data and "
     "string contents are not sampled.",
     [CODEC + "codec/encode.rs", CODEC + "response.rs", CODEC + "fetch.rs", CODEC + "body.rs", CODEC + "envelope.rs",
      CODEC + "mailbox.rs", CODEC + "extensions/", TYPES + "response.rs", TYPES + "fetch.rs", TYPES + "body.rs"],
     [("encoders", CODEC + "codec/encode.rs"), ("response parser", CODEC + "response.rs: response_data")],
     observe=["ResponseCodec::encode", "ResponseCodec::decode", "PartialEq of Response"])

prop("C03", "Greetings, status, continuation and SASL data survive a round trip",
     "Every greeting, status response (with every response code), continuation request, authentication data line and "
     "IDLE termination that the public constructors can build encodes to bytes which decode, without remainder, to an "
     "equal value; encoding that again gives the same bytes.",
     ["inputs"], "all values of these message types",
     "The tests use a few sample texts and codes; the space of codes, texts and SASL payloads is not sampled.",
     [CODEC + "codec/encode.rs", CODEC + "response.rs", CODEC + "auth.rs", TYPES + "response.rs", TYPES + "auth.rs"],
     [("encoders", CODEC + "codec/encode.rs"), ("parsers", CODEC + "response.rs: greeting, response_tagged, resp_text, "
                                                "continue_req; " + CODEC + "auth.rs: authenticate_data")],
     observe=["GreetingCodec", "ResponseCodec", "AuthenticateDataCodec", "IdleDoneCodec"],
     note="Excluded: text that starts with '[' without a code (documented ambiguity), referral codes (documented as "
          "unfinished), code values documented as not to be constructed.")

prop("C04", "Decoders are total on arbitrary bytes",
     "Decoding any byte string with any decoder terminates without panicking, and when a message is returned the "
     "remainder is a proper suffix of the input.",
     ["inputs"], "all byte strings, valid, malformed or truncated, for each of the five decoders",
     "Fuzzing and tests sample the inputs; a panic on one particular byte at one particular place needs that byte.",
     [CODEC + "codec/decode.rs", CODEC + "core.rs", CODEC + "command.rs", CODEC + "response.rs", CODEC + "datetime.rs",
      CODEC + "sequence.rs", TYPES + "core.rs"],
     [("nom parsers without indexing or unwrap on input", CODEC), ("validated unchecked constructors",
                                                                    TYPES + "core.rs: unvalidated")],
     observe=["Decoder::decode of the five codecs"])

prop("C05", "Streaming decoding never revises an answer",
     "Every proper prefix of an encoded message is answered with incomplete or literal-found; bytes behind a message are "
     "returned untouched as remainder and do not change the decoded message; and when a prefix of the data is answered "
     "with a message or with failure, the same answer is given for every longer input.",
     ["inputs", "histories"], "all messages, all ways to cut the stream, all continuations",
     "Tests check a handful of incomplete inputs; the property quantifies over every message and every cut.",
     [CODEC + "codec/decode.rs", CODEC + "core.rs", CODEC + "command.rs", CODEC + "response.rs"],
     [("streaming nom combinators", CODEC), ("mapping of nom errors", CODEC + "codec/decode.rs")],
     observe=["Decoder::decode: Ok, Incomplete, LiteralFound, Failed"])

prop("C06", "Everything accepted can be re-encoded without changing its meaning",
     "Whatever bytes a decoder accepts, the resulting message encodes to bytes that decode, without remainder, to an "
     "equal message, and encoding that once more gives the same bytes.",
     ["inputs"], "all byte strings that a decoder accepts, including spellings that the encoder never produces",
     "Tests cover a list of accepted spellings; a field that is dropped, truncated or misread in one spelling is not found.",
     [CODEC + "codec/encode.rs", CODEC + "core.rs", CODEC + "response.rs", CODEC + "command.rs", CODEC + "datetime.rs"],
     [("parser to type mapping", CODEC), ("encoders", CODEC + "codec/encode.rs")],
     observe=["Decoder::decode", "Encoder::encode"])

prop("C07", "Encoded messages are framed correctly",
     "The fragments of an encoded message concatenate to the message; every line fragment contains exactly one line "
     "break, CRLF at its end; and a literal fragment follows a line exactly if the line ends with an announcement of "
     "the literal's length and mode.",
     ["inputs"], "all messages of all kinds; all string contents, in particular line breaks and announcement-like text",
     "Tests look at the fragments of a few messages; command injection needs a particular byte in a particular field.",
     [CODEC + "codec/encode.rs", TYPES + "core.rs"],
     [("Encoded, Fragment, push_line, push_literal", CODEC + "codec/encode.rs"), ("string validation", TYPES + "core.rs")],
     observe=["Encoder::encode: Encoded as an iterator, Encoded::dump"],
     note="Free response text that ends like an announcement is ambiguous in IMAP itself and excluded from the last part.")

prop("C08", "The fragmentizer splits any stream correctly",
     "For any byte stream, cut into any pieces, the fragmentizer reports exactly the lines, announcements and literals "
     "that the stream contains, in order, independent of the cuts; message bytes, completion, size limit, poisoning, "
     "skipping, the decoded message and the decoded tag agree with the bytes of the current message.",
     ["inputs", "histories"], "all streams, all ways to enqueue them, all size limits, all points of poisoning and skipping",
     "The tests run a handful of streams with one or two ways of cutting; state kept across fragments is only exercised "
     "by particular histories.",
     [CODEC + "fragmentizer.rs"],
     [("Fragmentizer, LineParser, LiteralParser", CODEC + "fragmentizer.rs")],
     state=[("unparsed_buffer, message_buffer, parser, max_message_size", "fragmentizer state", CODEC + "fragmentizer.rs")],
     observe=["Fragmentizer public methods"],
     note="Compared with a reference model in the harness. If a message is both poisoned and too long, either error is "
          "accepted.")

prop("C09", "Literal announcements are reported exactly when the data ends with one",
     "While a message is received, the decoder of commands (responses) reports a found literal, with the command's tag, "
     "the announced length and the announced mode, exactly when the data received so far ends directly behind the "
     "announcement of a literal; in front of and behind that point it asks for more data. Lengths above 4294967295 are "
     "rejected, and nothing is reported that the data does not say.",
     ["inputs", "histories"], "all messages with literals, all cuts, all tags, lengths and modes, all malformed announcements",
     "Servers decide from this answer whether to send a continuation request; tests check a few commands with one literal.",
     [CODEC + "codec/decode.rs", CODEC + "core.rs", CODEC + "command.rs", CODEC + "extensions/binary.rs"],
     [("literal, literal8", CODEC + "core.rs, " + CODEC + "extensions/binary.rs"),
      ("CommandDecodeError::LiteralFound", CODEC + "codec/decode.rs")],
     observe=["CommandCodec::decode, ResponseCodec::decode: LiteralFound, Incomplete"])

prop("C12", "Sequence sets always denote the right numbers",
     "A sequence set selects the same messages however it is written, built, normalized or iterated: text is accepted "
     "exactly if it follows the grammar and then denotes the written numbers; conversions from numbers and ranges denote "
     "exactly these numbers and reject 0, numbers above 4294967295 and empty ranges; normalize keeps, for every largest "
     "number N, the selected numbers among 1..N and yields sorted, disjoint, non-adjacent sequences; iter yields each "
     "selected number once in ascending order and iter_naive the numbers as written; the order of sequences compares "
     "their numbers.",
     ["inputs"], "all sequence sets, all numbers up to 4294967295 and *, all largest numbers, all conversions",
     "Tests use a few small sets; the errors sit at 4294967295, at *, at adjacent or reversed ranges and in particular "
     "combinations.",
     [TYPES + "sequence.rs", CODEC + "sequence.rs"],
     [("SequenceSet::normalize, iter, iter_naive, merge_ranges, cleanup", TYPES + "sequence.rs"),
      ("impl_try_from_num!, impl_try_from_num_range!, FromStr", TYPES + "sequence.rs"),
      ("sequence_set parser", CODEC + "sequence.rs")],
     observe=["SequenceSet, Sequence and SeqOrUid conversions, normalize, iter, iter_naive", "CommandCodec::decode of FETCH"],
     note="Inclusive ranges that are empty in Rust (5..=3) are not rejected: their ends denote the IMAP range 3:5. The "
          "decoder accepts leading zeros, which is not counted as an error.")

prop("C13", "Deep nesting is rejected and never exhausts the stack",
     "However search keys, multipart and message bodies, body extensions and threads are nested and mixed, a message "
     "nested 16 or more levels deep is rejected as failed, complete or truncated, so the recursion of the decoders is "
     "bounded; nesting of up to 4 levels is accepted.",
     ["inputs"], "all ways to nest and mix the recursive productions, any depth",
     "A test repeats one bracket; a missing decrement on one of the productions only shows in nesting that uses it.",
     [CODEC + "search.rs", CODEC + "body.rs", CODEC + "extensions/thread.rs", CODEC + "fetch.rs"],
     [("search_key_limited", CODEC + "search.rs"), ("body_limited, body_type_msg_limited, body_type_mpart_limited, "
      "body_extension_limited", CODEC + "body.rs"), ("thread_list_limited", CODEC + "extensions/thread.rs")],
     observe=["CommandCodec::decode, ResponseCodec::decode"])

prop("C10", "Validated types hold exactly what the grammar allows",
     "Construction of a string, name, text, tag, list, number, date or continuation request succeeds exactly if the value "
     "is allowed by the grammar for that type, whichever constructor is used, and the value constructed has exactly the "
     "given content.",
     ["inputs"], "all byte strings, all characters, all list lengths, all constructors",
     "Everything the encoder sends relies on these checks (a line break in a text is a command injection); tests try a few "
     "strings per type.",
     [TYPES + "core.rs", TYPES + "response.rs", TYPES + "flag.rs", TYPES + "auth.rs", TYPES + "datetime.rs"],
     [("validate, TryFrom", TYPES + "core.rs"), ("character classes", TYPES + "utils.rs")],
     observe=["TryFrom of all validated types, accessors"])

prop("C11", "Strings keep their content in every representation",
     "Text given as a string, astring, nstring, mailbox or login argument keeps its content: it is represented as atom, "
     "quoted string or literal exactly as documented, a mailbox is INBOX exactly if it spells inbox in any case, in "
     "memory as on the wire, and escaping and unescaping are inverse to each other.",
     ["inputs"], "all strings, all conversions, all representations on the wire",
     "The choice depends on single bytes; tests use a few strings.",
     [TYPES + "core.rs", TYPES + "mailbox.rs", TYPES + "utils.rs", CODEC + "core.rs", CODEC + "mailbox.rs"],
     [("AString, IString, NString conversions", TYPES + "core.rs"), ("Mailbox::try_from", TYPES + "mailbox.rs"),
      ("escape_quoted, unescape_quoted, escape_byte_string", TYPES + "utils.rs")],
     observe=["TryFrom of AString, IString, NString, Mailbox", "Encoder::encode", "Decoder::decode"])

prop("C15", "Spelling does not change the meaning",
     "Keywords and known names mean the same in every combination of upper and lower case, alternative spellings that "
     "IMAP defines to be equal decode to equal messages, and exactly the known names map to the known variants, all "
     "others to the name as given.",
     ["inputs"], "all keywords in all 2^n cases, all names, all alternative spellings",
     "Tests use one spelling of most keywords.",
     [CODEC + "command.rs", CODEC + "response.rs", CODEC + "search.rs", CODEC + "flag.rs", TYPES + "flag.rs",
      TYPES + "auth.rs", TYPES + "response.rs"],
     [("tag_no_case", CODEC), ("From<Atom> of the name types", TYPES)],
     observe=["Decoder::decode", "From<Atom>, TryFrom of name types"])

prop("C14", "Owned copies equal the borrowed originals",
     "Turning a message into an owned one (to_static, into_static, decode_static) changes nothing: the copy is equal to "
     "the original, encodes to the same bytes, and decode_static answers every input like decode, errors included.",
     ["inputs"], "all messages of all types, all byte strings",
     "The conversions are derived or written by hand for some 150 types; tests convert a few values.",
     [TYPES + "bounded_static.rs", CODEC + "codec/decode.rs", TYPES + "datetime.rs", TYPES + "core.rs"],
     [("IntoStatic, ToStatic", TYPES), ("decode_static", CODEC + "codec/decode.rs")],
     observe=["IntoStatic::into_static, ToStatic::to_static", "Decoder::decode_static"])

prop("C16", "Secrets never appear in debug output of release builds",
     "In release builds, the debug output of messages, commands, errors and secrets in any format does not depend on the "
     "secret content (passwords, initial responses, authentication data, rejected message bytes) nor on its length or "
     "representation; it says REDACTED instead. Comparing, exposing and sending secrets is unaffected.",
     ["inputs"], "all secrets, all types that hold secrets",
     "Tests run in debug builds, where redaction is off by design, so that the redaction is never tested.",
     [TYPES + "secret.rs", TYPES + "command.rs", TYPES + "auth.rs", CODEC + "fragmentizer.rs",],
     [("Debug for Secret", TYPES + "secret.rs"), ("LOGIN, AUTHENTICATE, AuthenticateData", TYPES + "command.rs"),
      ("DecodeMessageError", CODEC + "fragmentizer.rs")],
     observe=["Debug of Command, CommandBody, AuthenticateData, Secret, DecodeMessageError"],
     note="Checked in a profile without debug assertions.")

prop("C17", "Generated tags are valid and never repeat",
     "Every tag that a tag generator makes is a valid tag, accepted by the validating constructor and sent unchanged, and "
     "no two tags of one process are equal, whichever generators made them, in any order and in any thread.",
     ["histories", "schedules"], "all histories of creating generators and generating tags, in all threads",
     "Tests generate a few tags of one generator in one thread.",
     ["imap-types/src/core.rs"],
     [("TagGenerator::generate", TYPES + "core.rs")],
     state=[("GLOBAL_TAG_GENERATOR_COUNT", "number of generators of the process", TYPES + "core.rs"),
            ("TagGenerator.counter", "tags made so far", TYPES + "core.rs")],
     observe=["TagGenerator::new", "TagGenerator::generate"],
     note="The random part is fixed by the executor's stub, so that uniqueness is shown without it.")

prop("C18", "Every field accepts exactly the values its grammar allows",
     "In every field of every message (atoms, strings in each form, tags, texts, numbers, base64, dates and times) the decoders "
     "accept exactly the values that the grammar allows there, with the right character sets, lengths, escapes, number ranges and "
     "calendar, and an accepted value is the one that was written: encoding the message gives the same bytes again.",
     ["inputs"], "all values of a field",
     "Tests decode a few values of each field, rarely ones next to the limits.",
     ["imap-codec/src/core.rs", "imap-codec/src/datetime.rs", "imap-codec/src/command.rs", "imap-codec/src/response.rs",
      "imap-codec/src/fetch.rs", "imap-codec/src/body.rs"],
     [("CommandCodec::decode", CODEC + "codec/decode.rs"), ("ResponseCodec::decode", CODEC + "codec/decode.rs")],
     note="Leading zeros are tolerated, and malformed response codes are taken as text.")

prop("C19", "Quirks accept exactly the irregular spellings they name",
     "Each irregular spelling that a quirk feature names is accepted with the feature, completely and as the regular message that "
     "it stands for, and rejected without it; other irregular spellings next to it are rejected in any case, regular messages "
     "keep their meaning, and the encoding quirks write what they say and mean the same.",
     ["inputs", "configurations"], "all irregular spellings, in builds with and without the quirks",
     "Tests try one example of some quirks, in one configuration.",
     ["imap-codec/src/response.rs", "imap-codec/src/body.rs", "imap-codec/src/mailbox.rs", "imap-codec/src/envelope.rs",
      "imap-codec/src/extensions/id.rs", "imap-codec/src/extensions/quota.rs"],
     [("ResponseCodec::decode", CODEC + "codec/decode.rs"), ("CommandCodec::decode", CODEC + "codec/decode.rs")],
     note="The features are tested in groups: none, the default ones, all.")

NA = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    claimed = [p for p in P if p["id"] not in [n["property"] for n in NA]]
    m = dict(
        version=1, setup_cmd="bash setup.sh",
        checks=[dict(
            property=p["id"],
            quick_cmd="python3 check.py %s quick" % p["id"],
            thorough_cmd="python3 check.py %s thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"],
            technique="symbolic execution of the compiled code (LLVM IR of /repo and harness), assertions decided by Z3",
            level="model_checking",
            level_note=("Bounded: every path of the real code within the bounds stated in DESIGN.md and in the evidence is "
                        "explored with symbolic inputs; nothing is claimed beyond them. Trusted: rustc's IR generation, the "
                        "executor in engine/, Z3; counterexamples are replayed natively before they are reported, and "
                        "sampled paths are compared with the native build. " + NOTES[p["id"]]).strip(),
        ) for p in claimed],
        not_applicable=NA,
        notes="check.py builds the harness crate together with /repo's working tree into one LLVM module and explores it; "
              "no hooks are needed in /repo. Known findings and repaired defects: known-findings.json.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
