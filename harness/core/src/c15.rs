//! Spellings: keywords and names in any case, and other ways to write the same, mean
//! the same.
use crate::fam::{decode, Out};
use crate::sym::*;
use imap_types::{
    auth::AuthMechanism,
    core::*,
    extensions::{
        compress::CompressionAlgorithm, condstore_qresync::AttributeFlag, enable::CapabilityEnable, quota::Resource,
        sort::SortAlgorithm, thread::ThreadingAlgorithm, utf8::Utf8Kind,
    },
    flag::{Flag, FlagNameAttribute},
    response::Capability,
};

/// Messages whose letters all belong to keywords, and optionally another way to
/// write the same message.
const CMD: &[(&str, &str)] = &[
    ("1 CAPABILITY", ""),
    ("1 NOOP", ""),
    ("1 LOGOUT", ""),
    ("1 STARTTLS", ""),
    ("1 AUTHENTICATE PLAIN", ""),
    ("1 AUTHENTICATE LOGIN =", ""),
    ("1 AUTHENTICATE OAUTHBEARER 1234", ""),
    ("1 AUTHENTICATE XOAUTH2", ""),
    ("1 AUTHENTICATE SCRAM-SHA-1", ""),
    ("1 AUTHENTICATE SCRAM-SHA-1-PLUS", ""),
    ("1 AUTHENTICATE SCRAM-SHA-256", ""),
    ("1 AUTHENTICATE SCRAM-SHA-256-PLUS", ""),
    ("1 AUTHENTICATE SCRAM-SHA3-512", ""),
    ("1 AUTHENTICATE SCRAM-SHA3-512-PLUS", ""),
    ("1 LOGIN 1 \"2\"", ""),
    ("1 SELECT INBOX", "1 SELECT \"INBOX\""),
    ("1 SELECT INBOX", "1 SELECT {5}\r\nINBOX"),
    ("1 SELECT INBOX", "1 SELECT {5+}\r\nINBOX"),
    ("1 SELECT 1 (CONDSTORE)", ""),
    ("1 SELECT 1 (QRESYNC (7 20 41,43:9 (1:3 5,7)))", ""),
    ("1 EXAMINE 1", ""),
    ("1 EXAMINE 1 (CONDSTORE)", ""),
    ("1 EXAMINE 1 (QRESYNC (7 20))", ""),
    ("1 CREATE 1", ""),
    ("1 DELETE 1", ""),
    ("1 RENAME 1 INBOX", ""),
    ("1 SUBSCRIBE 1", ""),
    ("1 UNSUBSCRIBE 1", ""),
    ("1 LIST \"\" *", ""),
    ("1 LSUB \"\" %", ""),
    ("1 STATUS 1 (MESSAGES RECENT UIDNEXT UIDVALIDITY)", ""),
    ("1 STATUS 1 (UNSEEN DELETED DELETED-STORAGE HIGHESTMODSEQ)", ""),
    ("1 APPEND 1 (\\SEEN \\ANSWERED \\FLAGGED \\DELETED \\DRAFT) {1}\r\n1", ""),
    ("1 APPEND 1 \"17-JAN-1996 02:44:25 -0700\" {1}\r\n1", ""),
    ("1 APPEND 1 \"01-FEB-1996 02:44:25 +0000\" {1}\r\n1", "1 APPEND 1 \" 1-FEB-1996 02:44:25 +0000\" {1}\r\n1"),
    ("1 APPEND 1 {1}\r\n1", "1 APPEND 1 () {1}\r\n1"),
    ("1 CHECK", ""),
    ("1 CLOSE", ""),
    ("1 EXPUNGE", ""),
    ("1 UID EXPUNGE 1", ""),
    ("1 UNSELECT", ""),
    ("1 SEARCH ALL ANSWERED DELETED FLAGGED", ""),
    ("1 SEARCH NEW OLD RECENT SEEN", ""),
    ("1 SEARCH UNANSWERED UNDELETED UNFLAGGED UNSEEN", ""),
    ("1 SEARCH DRAFT UNDRAFT KEYWORD 1 UNKEYWORD 2", ""),
    ("1 SEARCH BCC 1 CC 2 FROM 3 TO 4", ""),
    ("1 SEARCH SUBJECT 1 BODY 2 TEXT 3 HEADER 4 5", ""),
    ("1 SEARCH LARGER 1 SMALLER 2 UID 3", "1 SEARCH LARGER 01 SMALLER 0002 UID 3"),
    ("1 SEARCH NOT OR 1 2 3", ""),
    ("1 SEARCH BEFORE 1-JAN-1994 ON 11-FEB-1994", "1 SEARCH BEFORE 01-JAN-1994 ON \"11-FEB-1994\""),
    ("1 SEARCH SINCE 1-MAR-1994 SENTBEFORE 1-APR-1994", "1 SEARCH SINCE \"1-MAR-1994\" SENTBEFORE \"01-APR-1994\""),
    ("1 SEARCH SENTON 1-MAY-1994 SENTSINCE 1-JUN-1994", "1 SEARCH SENTON \"1-MAY-1994\" SENTSINCE 1-JUN-1994"),
    ("1 SEARCH ON 1-JUL-1994 ON 1-AUG-1994", ""),
    ("1 SEARCH ON 1-SEP-1994 ON 1-OCT-1994", ""),
    ("1 SEARCH ON 1-NOV-1994 ON 1-DEC-1994", ""),
    ("1 SEARCH CHARSET 8 1", ""),
    ("1 UID SEARCH MODSEQ 1", ""),
    ("1 SEARCH MODSEQ \"/FLAGS/\\\\SEEN\" ALL 62", ""),
    ("1 SEARCH MODSEQ \"/FLAGS/\\\\ANSWERED\" PRIV 62", ""),
    ("1 SEARCH MODSEQ \"/FLAGS/\\\\DRAFT\" SHARED 62", ""),
    ("1 SEARCH MODSEQ \"/FLAGS/\\\\FLAGGED\" SHARED 62", ""),
    ("1 SEARCH MODSEQ \"/FLAGS/\\\\DELETED\" SHARED 62", ""),
    ("1 SORT (SUBJECT REVERSE DATE) 8 ALL", ""),
    ("1 UID SORT (ARRIVAL CC FROM SIZE TO) 8 1", ""),
    ("1 SORT (DISPLAYFROM REVERSE DISPLAYTO) 8 1", ""),
    ("1 THREAD ORDEREDSUBJECT 8 ALL", ""),
    ("1 UID THREAD REFERENCES 8 1", ""),
    ("1 FETCH 1 ALL", ""),
    ("1 FETCH 1 FAST", ""),
    ("1 FETCH 1 FULL", ""),
    ("1 FETCH 1 FLAGS", "1 FETCH 1 (FLAGS)"),
    ("1 UID FETCH 1 (UID ENVELOPE INTERNALDATE)", ""),
    ("1 FETCH 1 (RFC822 RFC822.SIZE RFC822.HEADER RFC822.TEXT)", ""),
    ("1 FETCH 1 (BODY BODYSTRUCTURE MODSEQ)", ""),
    ("1 FETCH 1 (BODY[] BODY.PEEK[TEXT] BODY[1.MIME])", ""),
    ("1 FETCH 1 (BODY[HEADER] BODY[1.HEADER]<1.2>)", ""),
    ("1 FETCH 1 BODY[HEADER.FIELDS (1)]", ""),
    ("1 FETCH 1 BODY[1.HEADER.FIELDS.NOT (1)]", ""),
    ("1 FETCH 1 (BINARY[1] BINARY.PEEK[1.2]<1.2> BINARY.SIZE[3])", ""),
    ("1 FETCH 1 FLAGS (CHANGEDSINCE 1)", "1 FETCH 1 (FLAGS) (CHANGEDSINCE 1)"),
    ("1 UID FETCH 1 FLAGS (CHANGEDSINCE 1 VANISHED)", ""),
    ("1 STORE 1 FLAGS (\\DELETED)", "1 STORE 1 FLAGS \\DELETED"),
    ("1 STORE 1 +FLAGS (\\SEEN \\DRAFT)", "1 STORE 1 +FLAGS \\SEEN \\DRAFT"),
    ("1 UID STORE 1 +FLAGS.SILENT (\\ANSWERED)", "1 UID STORE 1 +FLAGS.SILENT \\ANSWERED"),
    ("1 STORE 1 -FLAGS ()", ""),
    ("1 STORE 1 FLAGS.SILENT (\\FLAGGED)", ""),
    ("1 STORE 1 -FLAGS.SILENT (\\FLAGGED)", ""),
    ("1 STORE 1 (UNCHANGEDSINCE 3) FLAGS ()", ""),
    ("1 COPY 1 2", "1 COPY 1 2"),
    ("1 UID COPY 1 INBOX", ""),
    ("1 MOVE 1 2", ""),
    ("1 UID MOVE 1 INBOX", ""),
    ("1 IDLE", ""),
    ("1 ENABLE CONDSTORE UTF8=ACCEPT UTF8=ONLY", ""),
    ("1 ENABLE METADATA METADATA-SERVER", ""),
    ("1 COMPRESS DEFLATE", ""),
    ("1 GETQUOTA 1", ""),
    ("1 GETQUOTAROOT INBOX", ""),
    ("1 SETQUOTA 1 (STORAGE 1 MESSAGE 2)", ""),
    ("1 SETQUOTA 1 (MAILBOX 1 ANNOTATION-STORAGE 2)", ""),
    ("1 ID NIL", ""),
    ("1 ID (\"1\" NIL)", ""),
    ("1 NAMESPACE", ""),
    ("1 SETMETADATA INBOX (/1 NIL)", ""),
    ("1 GETMETADATA 1 /1", "1 GETMETADATA 1 (/1)"),
    ("1 GETMETADATA (MAXSIZE 1 DEPTH INFINITY) 1 /1", ""),
    ("1 GETMETADATA (DEPTH 0) 1 (/1 /2)", ""),
    ("1 GETMETADATA (DEPTH 1) 1 (/1 /2)", ""),
];

const RSP: &[(&str, &str)] = &[
    ("+ [ALERT] 1", ""),
    ("* CAPABILITY IMAP4REV1 LOGINDISABLED STARTTLS IDLE", ""),
    ("* CAPABILITY MAILBOX-REFERRALS LOGIN-REFERRALS SASL-IR ENABLE", ""),
    ("* CAPABILITY QUOTA QUOTASET QUOTA=RES-STORAGE QUOTA=RES-MAILBOX", ""),
    ("* CAPABILITY LITERAL+ LITERAL- MOVE ID UNSELECT SORT", ""),
    ("* CAPABILITY AUTH=PLAIN AUTH=XOAUTH2 COMPRESS=DEFLATE", ""),
    ("* CAPABILITY SORT=DISPLAY THREAD=REFERENCES THREAD=ORDEREDSUBJECT", ""),
    ("* CAPABILITY METADATA METADATA-SERVER BINARY UIDPLUS", ""),
    ("* CAPABILITY CONDSTORE QRESYNC NAMESPACE UTF8=ACCEPT UTF8=ONLY", ""),
    ("* LIST (\\NOSELECT) \"/\" INBOX", "* LIST (\\NOSELECT) \"/\" {5}\r\nINBOX"),
    ("* LIST (\\MARKED \\NOINFERIORS) NIL INBOX", "* LIST (\\MARKED \\NOINFERIORS) NIL \"INBOX\""),
    ("* LSUB (\\UNMARKED) NIL 1", ""),
    ("* SEARCH 1", ""),
    ("* SEARCH 1 2 (MODSEQ 3)", ""),
    ("* SORT 1", ""),
    ("* SORT 1 (MODSEQ 3)", ""),
    ("* THREAD (1)", ""),
    ("* FLAGS (\\ANSWERED \\FLAGGED \\DELETED \\SEEN \\DRAFT)", ""),
    ("* STATUS 1 (MESSAGES 1 RECENT 2 UIDNEXT 3 UIDVALIDITY 4)", "* STATUS 1 (MESSAGES 01 RECENT 02 UIDNEXT 3 UIDVALIDITY 4)"),
    ("* STATUS 1 (UNSEEN 1 DELETED 2 DELETED-STORAGE 3 HIGHESTMODSEQ 4)", ""),
    ("* 1 EXISTS", ""),
    ("* 1 RECENT", ""),
    ("* 1 EXPUNGE", ""),
    ("* 1 FETCH (FLAGS (\\SEEN \\RECENT))", ""),
    ("* 1 FETCH (UID 1 RFC822.SIZE 2 MODSEQ (3))", ""),
    ("* 1 FETCH (INTERNALDATE \"01-DEC-1996 02:44:25 -0700\")", "* 1 FETCH (INTERNALDATE \" 1-DEC-1996 02:44:25 -0700\")"),
    ("* 1 FETCH (RFC822 NIL RFC822.TEXT NIL RFC822.HEADER NIL)", ""),
    ("* 1 FETCH (BODY[] NIL BODY[TEXT] NIL BODY[1.MIME]<1> NIL)", ""),
    ("* 1 FETCH (BODY[HEADER.FIELDS (1)] NIL BODY[HEADER.FIELDS.NOT (1)] NIL)", ""),
    ("* 1 FETCH (BODY[HEADER] NIL BINARY[1] NIL BINARY.SIZE[2] 3)", ""),
    ("* 1 FETCH (ENVELOPE (NIL NIL ((NIL NIL NIL NIL)) NIL NIL NIL NIL NIL NIL NIL))", ""),
    ("* 1 FETCH (BODY (\"TEXT\" \"1\" NIL NIL NIL \"7\" 2 1))", ""),
    ("* 1 FETCH (BODYSTRUCTURE (\"1\" \"1\" NIL NIL NIL \"7\" 2 NIL NIL NIL NIL))", ""),
    ("* 1 FETCH (BODY (\"MESSAGE\" \"RFC822\" NIL NIL NIL \"7\" 1 (NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL) (\"1\" \"2\" NIL NIL NIL \"3\" 1) 3))", ""),
    ("* OK 1", ""),
    ("* NO 1", ""),
    ("* BAD 1", ""),
    ("* BYE 1", ""),
    ("1 OK 1", ""),
    ("1 NO 1", ""),
    ("1 BAD 1", ""),
    ("1 NO [PARSE] 1", ""),
    ("1 NO [BADCHARSET] 1", ""),
    ("1 NO [BADCHARSET (8)] 1", ""),
    ("* OK [CAPABILITY IMAP4REV1 IDLE] 1", ""),
    ("* OK [PERMANENTFLAGS (\\SEEN \\DELETED \\*)] 1", ""),
    ("1 OK [READ-ONLY] 1", ""),
    ("1 OK [READ-WRITE] 1", ""),
    ("1 NO [TRYCREATE] 1", ""),
    ("* OK [UIDNEXT 1] 1", ""),
    ("* OK [UIDVALIDITY 1] 1", ""),
    ("* OK [UNSEEN 1] 1", ""),
    ("1 NO [COMPRESSIONACTIVE] 1", ""),
    ("1 NO [OVERQUOTA] 1", ""),
    ("1 NO [TOOBIG] 1", ""),
    ("1 OK [METADATA LONGENTRIES 1] 1", ""),
    ("1 NO [METADATA MAXSIZE 1] 1", ""),
    ("1 NO [METADATA TOOMANY] 1", ""),
    ("1 NO [METADATA NOPRIVATE] 1", ""),
    ("1 NO [UNKNOWN-CTE] 1", ""),
    ("1 OK [APPENDUID 1 2] 1", ""),
    ("1 OK [COPYUID 1 2 3] 1", ""),
    ("1 NO [UIDNOTSTICKY] 1", ""),
    ("* OK [HIGHESTMODSEQ 1] 1", ""),
    ("* OK [NOMODSEQ] 1", ""),
    ("1 OK [MODIFIED 7,9] 1", ""),
    ("* OK [CLOSED] 1", ""),
    ("* ENABLED CONDSTORE UTF8=ACCEPT", ""),
    ("* QUOTA 1 (STORAGE 10 512 MESSAGE 1 2)", ""),
    ("* QUOTA 1 (MAILBOX 1 2 ANNOTATION-STORAGE 3 4)", ""),
    ("* QUOTAROOT INBOX 1", ""),
    ("* ID NIL", ""),
    ("* ID (\"1\" NIL)", ""),
    ("* METADATA INBOX (/1 NIL)", ""),
    ("* METADATA 1 /1 /2", ""),
    ("* NAMESPACE ((\"\" \"/\")) NIL NIL", ""),
    ("* VANISHED 1", ""),
    ("* VANISHED (EARLIER) 1:2", ""),
];

const GRE: &[(&str, &str)] = &[("* OK 1", ""), ("* PREAUTH 1", ""), ("* BYE [ALERT] 1", ""), ("* OK [CAPABILITY IMAP4REV1] 1", "")];
const IDL: &[(&str, &str)] = &[("DONE", "")];

fn line(s: &str) -> Vec<u8> {
    let mut v = s.as_bytes().to_vec();
    v.extend_from_slice(b"\r\n");
    v
}

/// The letters in any case.
fn any_case(s: &str) -> Vec<u8> {
    let mut v = line(s);
    for b in v.iter_mut() {
        if b.is_ascii_alphabetic() {
            *b ^= byte() & 0x20;
        }
    }
    v
}

fn wire() {
    let (n0, n1, n2) = (CMD.len(), RSP.len(), GRE.len());
    let i = case((n0 + n1 + n2 + IDL.len()) as u32) as usize;
    let (k, (a, b)) = if i < n0 {
        (1, CMD[i])
    } else if i < n0 + n1 {
        (3, RSP[i - n0])
    } else if i < n0 + n1 + n2 {
        (0, GRE[i - n0 - n1])
    } else {
        (4, IDL[i - n0 - n1 - n2])
    };
    let b = if choice(2) == 0 || b.is_empty() { a } else { b };
    let x = line(a);
    let y = any_case(b);
    note(&y);
    match (decode(k, &x), decode(k, &y)) {
        (Out::Ok(r, m), Out::Ok(s, n)) => {
            check(r.is_empty() && s.is_empty(), 1);
            check(m == n, 2);
            reach(1);
        }
        (Out::Ok(..), _) => check(false, 3),
        _ => check(false, 4),
    }
}

macro_rules! table {
    ($($t:ty: $($name:literal => $v:pat,)*;)*) => {
        const NAMES: u32 = 0 $($( + { let _ = $name; 1 } )*)*;
        /// A name of the same length: exactly the known spellings give the variant.
        fn name_case() {
            let mut k = case(NAMES);
            $($(
                if k == 0 {
                    let n: &[u8] = $name.as_bytes();
                    let any = choice(2) == 1;
                    let x: Vec<u8> = if any {
                        // Two arbitrary adjacent bytes.
                        let i = choice(n.len() as u32) as usize;
                        let mut v = n.to_vec();
                        v[i] = byte();
                        if i + 1 < n.len() {
                            v[i + 1] = byte();
                        }
                        v
                    } else {
                        n.iter().map(|b| if b.is_ascii_alphabetic() { *b ^ (byte() & 0x20) } else { *b }).collect()
                    };
                    let a = need(Atom::try_from(&x[..]));
                    let mut same = true;
                    for j in 0..n.len() {
                        same &= x[j].to_ascii_lowercase() == n[j].to_ascii_lowercase();
                    }
                    let v = <$t>::from(a);
                    check(matches!(v, $v) == same, 1);
                    check(v.to_string().eq_ignore_ascii_case(std::str::from_utf8(&x).unwrap()), 2);
                    if same { reach(1) } else { reach(2) }
                    return;
                }
                k -= 1;
            )*)*
            let _ = k;
        }
    };
}

struct System<'a>(Flag<'a>);
impl<'a> From<Atom<'a>> for System<'a> {
    fn from(a: Atom<'a>) -> Self {
        System(Flag::system(a))
    }
}
impl std::fmt::Display for System<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0.to_string()[1..])
    }
}
struct Attribute<'a>(AttributeFlag<'a>);
impl<'a> From<Atom<'a>> for Attribute<'a> {
    fn from(a: Atom<'a>) -> Self {
        Attribute(AttributeFlag::system(a))
    }
}
impl std::fmt::Display for Attribute<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0.to_string()[2..])
    }
}
struct Name<'a>(FlagNameAttribute<'a>);
impl<'a> From<Atom<'a>> for Name<'a> {
    fn from(a: Atom<'a>) -> Self {
        Name(FlagNameAttribute::from(a))
    }
}
impl std::fmt::Display for Name<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0.to_string()[1..])
    }
}
struct Compression(Option<CompressionAlgorithm>, String);
impl<'a> From<Atom<'a>> for Compression {
    fn from(a: Atom<'a>) -> Self {
        let s = a.as_ref().to_string();
        let c = CompressionAlgorithm::try_from(a).ok();
        check(CompressionAlgorithm::try_from(s.as_str()).ok() == c, 3);
        check(CompressionAlgorithm::try_from(s.as_bytes()).ok() == c, 4);
        Compression(c, s)
    }
}
impl std::fmt::Display for Compression {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match &self.0 {
            Some(c) => write!(f, "{c}"),
            None => f.write_str(&self.1),
        }
    }
}

table! {
    System: "Answered" => System(Flag::Answered), "Deleted" => System(Flag::Deleted), "Draft" => System(Flag::Draft),
        "Flagged" => System(Flag::Flagged), "Seen" => System(Flag::Seen),;
    Attribute: "Answered" => Attribute(AttributeFlag::Answered), "Deleted" => Attribute(AttributeFlag::Deleted),
        "Draft" => Attribute(AttributeFlag::Draft), "Flagged" => Attribute(AttributeFlag::Flagged),
        "Seen" => Attribute(AttributeFlag::Seen),;
    Name: "Noinferiors" => Name(FlagNameAttribute::Noinferiors), "Noselect" => Name(FlagNameAttribute::Noselect),
        "Marked" => Name(FlagNameAttribute::Marked), "Unmarked" => Name(FlagNameAttribute::Unmarked),;
    Compression: "Deflate" => Compression(Some(CompressionAlgorithm::Deflate), _),;
    AuthMechanism: "PLAIN" => AuthMechanism::Plain, "LOGIN" => AuthMechanism::Login,
        "OAUTHBEARER" => AuthMechanism::OAuthBearer, "XOAUTH2" => AuthMechanism::XOAuth2,
        "SCRAM-SHA-1" => AuthMechanism::ScramSha1, "SCRAM-SHA-1-PLUS" => AuthMechanism::ScramSha1Plus,
        "SCRAM-SHA-256" => AuthMechanism::ScramSha256, "SCRAM-SHA-256-PLUS" => AuthMechanism::ScramSha256Plus,
        "SCRAM-SHA3-512" => AuthMechanism::ScramSha3_512, "SCRAM-SHA3-512-PLUS" => AuthMechanism::ScramSha3_512Plus,;
    Resource: "STORAGE" => Resource::Storage, "MESSAGE" => Resource::Message, "MAILBOX" => Resource::Mailbox,
        "ANNOTATION-STORAGE" => Resource::AnnotationStorage,;
    CapabilityEnable: "CONDSTORE" => CapabilityEnable::CondStore, "METADATA" => CapabilityEnable::Metadata,
        "METADATA-SERVER" => CapabilityEnable::MetadataServer, "UTF8=ACCEPT" => CapabilityEnable::Utf8(Utf8Kind::Accept),
        "UTF8=ONLY" => CapabilityEnable::Utf8(Utf8Kind::Only),;
    SortAlgorithm: "DISPLAY" => SortAlgorithm::Display,;
    ThreadingAlgorithm: "ORDEREDSUBJECT" => ThreadingAlgorithm::OrderedSubject, "REFERENCES" => ThreadingAlgorithm::References,;
    Capability: "IMAP4REV1" => Capability::Imap4Rev1, "LOGINDISABLED" => Capability::LoginDisabled,
        "STARTTLS" => Capability::StartTls, "IDLE" => Capability::Idle, "MAILBOX-REFERRALS" => Capability::MailboxReferrals,
        "LOGIN-REFERRALS" => Capability::LoginReferrals, "SASL-IR" => Capability::SaslIr, "ENABLE" => Capability::Enable,
        "QUOTA" => Capability::Quota, "QUOTASET" => Capability::QuotaSet, "LITERAL+" => Capability::LiteralPlus,
        "LITERAL-" => Capability::LiteralMinus, "MOVE" => Capability::Move, "ID" => Capability::Id,
        "SORT" => Capability::Sort(None), "METADATA" => Capability::Metadata, "METADATA-SERVER" => Capability::MetadataServer,
        "BINARY" => Capability::Binary, "UNSELECT" => Capability::Unselect, "CONDSTORE" => Capability::CondStore,
        "QRESYNC" => Capability::QResync, "UIDPLUS" => Capability::UidPlus, "NAMESPACE" => Capability::Namespace,
        "UTF8=ACCEPT" => Capability::Utf8(Utf8Kind::Accept), "UTF8=ONLY" => Capability::Utf8(Utf8Kind::Only),
        "AUTH=PLAIN" => Capability::Auth(AuthMechanism::Plain), "AUTH=LOGIN" => Capability::Auth(AuthMechanism::Login),
        "COMPRESS=DEFLATE" => Capability::Compress { algorithm: CompressionAlgorithm::Deflate },
        "QUOTA=RES-STORAGE" => Capability::QuotaRes(Resource::Storage),
        "QUOTA=RES-MESSAGE" => Capability::QuotaRes(Resource::Message),
        "SORT=DISPLAY" => Capability::Sort(Some(SortAlgorithm::Display)),
        "THREAD=REFERENCES" => Capability::Thread(ThreadingAlgorithm::References),
        "THREAD=ORDEREDSUBJECT" => Capability::Thread(ThreadingAlgorithm::OrderedSubject),;
}

harnesses! {
    fn h_c15_wire() { wire() }
    fn h_c15_names() { name_case() }
}
