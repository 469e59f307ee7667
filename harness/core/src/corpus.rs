//! Well-formed messages that between them use every production of the grammar,
//! in spellings that the encoder does not necessarily emit.

pub const GREETINGS: &[&[u8]] = &[
    b"* OK ready\r\n",
    b"* PREAUTH x [y\r\n",
    b"* bye [alert] a]b\r\n",
    b"* OK [CAPABILITY IMAP4rev1 AUTH=PLAIN] hi\r\n",
    b"* OK [UIDNEXT 4392] n\r\n",
    b"* OK [X-Y a b] n\r\n",
];

pub const AUTH: &[&[u8]] = &[b"*\r\n", b"\r\n", b"AA==\r\n", b"YWI=\r\n", b"YWJj\r\n", b"YWJjZA==\r\n"];

pub const IDLE: &[&[u8]] = &[b"DONE\r\n", b"done\r\n"];

pub const COMMANDS: &[&[u8]] = &[
    b"a CAPABILITY\r\n",
    b"b1 noop\r\n",
    b"c.3 Logout\r\n",
    b"a STARTTLS\r\n",
    b"a AUTHENTICATE PLAIN\r\n",
    b"a authenticate XYZ YWI=\r\n",
    b"a AUTHENTICATE SCRAM-SHA-1-PLUS =\r\n",
    b"a LOGIN u p\r\n",
    b"a login \"u\\\"\" {2}\r\np \r\n",
    b"a LOGIN {1+}\r\nu {0}\r\n\r\n",
    b"a SELECT inbox\r\n",
    b"a SELECT \"in box\" (CONDSTORE)\r\n",
    b"a SELECT x (QRESYNC (7 20))\r\n",
    b"a SELECT x (QRESYNC (7 20 41,43:9 (1:3 5,7)))\r\n",
    b"a EXAMINE {5}\r\nINBOX\r\n",
    b"a CREATE a/b\r\n",
    b"a DELETE a]\r\n",
    b"a RENAME INBOX \"\"\r\n",
    b"a SUBSCRIBE &AOQ-\r\n",
    b"a UNSUBSCRIBE %\"\r\n",
    b"a LIST \"\" *\r\n",
    b"a LIST ref \"%/x\"\r\n",
    b"a LSUB {1}\r\nr {1+}\r\n%\r\n",
    b"a STATUS x (MESSAGES RECENT UIDNEXT)\r\n",
    b"a STATUS x (UIDVALIDITY UNSEEN DELETED DELETED-STORAGE HIGHESTMODSEQ)\r\n",
    b"a APPEND x {3}\r\nabc\r\n",
    b"a APPEND x (\\Seen $x) {1+}\r\nz\r\n",
    b"a APPEND x \"17-Jul-1996 02:44:25 -0700\" {0}\r\n\r\n",
    b"a APPEND x () \" 1-Feb-2000 23:59:59 +1259\" ~{2}\r\n\0\xff\r\n",
    b"a CHECK\r\n",
    b"a CLOSE\r\n",
    b"a EXPUNGE\r\n",
    b"a UNSELECT\r\n",
    b"a UID EXPUNGE 3000:3002,*\r\n",
    b"a SEARCH ALL\r\n",
    b"a SEARCH CHARSET UTF-8 ANSWERED\r\n",
    b"a SEARCH CHARSET \"x y\" BCC z\r\n",
    b"a UID SEARCH BEFORE 1-Feb-1994 BODY \"x\"\r\n",
    b"a SEARCH CC {1}\r\nq DELETED FLAGGED\r\n",
    b"a SEARCH FROM x KEYWORD $K NEW OLD ON \"11-Dec-2020\"\r\n",
    b"a SEARCH RECENT SEEN SINCE 1-Jan-2001 SUBJECT y\r\n",
    b"a SEARCH TEXT x TO y UNANSWERED UNDELETED\r\n",
    b"a SEARCH UNFLAGGED UNKEYWORD f UNSEEN DRAFT\r\n",
    b"a SEARCH HEADER X-A \"\" LARGER 9 SMALLER 10\r\n",
    b"a SEARCH NOT OR SEEN (DRAFT UNDRAFT)\r\n",
    b"a SEARCH SENTBEFORE 1-Mar-1999 SENTON 2-Apr-1999\r\n",
    b"a SEARCH SENTSINCE 3-May-1999 UID 1:*,5\r\n",
    b"a SEARCH 2,4:7 MODSEQ 12345678901\r\n",
    b"a SEARCH MODSEQ \"/flags/\\\\draft\" all 62\r\n",
    b"a SORT (SUBJECT REVERSE DATE) UTF-8 ALL\r\n",
    b"a UID SORT (ARRIVAL CC FROM SIZE TO) x 1\r\n",
    b"a SORT (DISPLAYFROM REVERSE DISPLAYTO) \"x\" SEEN\r\n",
    b"a THREAD ORDEREDSUBJECT UTF-8 ALL\r\n",
    b"a UID THREAD REFERENCES \"c\" 1:2\r\n",
    b"a FETCH 2:4 ALL\r\n",
    b"a FETCH 1 fast\r\n",
    b"a FETCH * FULL\r\n",
    b"a UID FETCH 1,2 (FLAGS UID)\r\n",
    b"a FETCH 1 BODY\r\n",
    b"a FETCH 1 (ENVELOPE INTERNALDATE RFC822.SIZE)\r\n",
    b"a FETCH 1 (RFC822 RFC822.HEADER RFC822.TEXT)\r\n",
    b"a FETCH 1 (BODY BODYSTRUCTURE MODSEQ)\r\n",
    b"a FETCH 1 BODY[]\r\n",
    b"a FETCH 1 BODY.PEEK[HEADER]<0.10>\r\n",
    b"a FETCH 1 BODY[1.2.MIME]\r\n",
    b"a FETCH 1 BODY[3.TEXT]<4.5>\r\n",
    b"a FETCH 1 BODY[HEADER.FIELDS (DATE \"F\")]\r\n",
    b"a FETCH 1 BODY[4.HEADER.FIELDS.NOT (x)]\r\n",
    b"a FETCH 1 (BINARY[1] BINARY.PEEK[1.2]<1.2> BINARY.SIZE[3])\r\n",
    b"a FETCH 1 FLAGS (CHANGEDSINCE 12345)\r\n",
    b"a UID FETCH 1 FLAGS (CHANGEDSINCE 5 VANISHED)\r\n",
    b"a STORE 1 FLAGS (\\Deleted)\r\n",
    b"a UID STORE 1:2 +FLAGS.SILENT \\Answered \\x\r\n",
    b"a STORE * -FLAGS ()\r\n",
    b"a STORE 1 (UNCHANGEDSINCE 320) FLAGS.SILENT (\\Draft kw)\r\n",
    b"a COPY 2:4 m\r\n",
    b"a UID COPY 1 INBOX\r\n",
    b"a MOVE 1 {1}\r\nm\r\n",
    b"a UID MOVE 1,2 \"m\"\r\n",
    b"a IDLE\r\n",
    b"a ENABLE CONDSTORE UTF8=ACCEPT\r\n",
    b"a ENABLE X-FOO\r\n",
    b"a COMPRESS DEFLATE\r\n",
    b"a GETQUOTA \"\"\r\n",
    b"a GETQUOTAROOT INBOX\r\n",
    b"a SETQUOTA #r (STORAGE 512 X-Y 2)\r\n",
    b"a SETQUOTA \"\" ()\r\n",
    b"a ID (\"name\" \"x\" {1}\r\nv NIL)\r\n",
    b"a ID NIL\r\n",
    b"a NAMESPACE\r\n",
    b"a SETMETADATA INBOX (/private/c NIL)\r\n",
    b"a SETMETADATA \"\" (/shared/c {1}\r\nx /x ~{1}\r\n\0)\r\n",
    b"a GETMETADATA \"\" /shared/comment\r\n",
    b"a GETMETADATA (MAXSIZE 1024) INBOX (/a /b)\r\n",
    b"a GETMETADATA (DEPTH infinity MAXSIZE 1) x /y\r\n",
];

pub const RESPONSES: &[&[u8]] = &[
    b"+ OK\r\n",
    b"+ YWI=\r\n",
    b"+ [ALERT] go\r\n",
    b"* CAPABILITY IMAP4rev1 STARTTLS QUOTA=RES-X\r\n",
    b"* CAPABILITY AUTH=LOGIN COMPRESS=DEFLATE LITERAL+ SORT=DISPLAY\r\n",
    b"* LIST (\\Noselect) \"/\" ~/x\r\n",
    b"* LIST (\\Marked \\X) NIL \"\"\r\n",
    b"* LSUB () \"\\\\\" {2}\r\nab\r\n",
    b"* SEARCH\r\n",
    b"* SEARCH 2 84 882\r\n",
    b"* SEARCH 2 (MODSEQ 917162500)\r\n",
    b"* SORT 1 2\r\n",
    b"* SORT\r\n",
    b"* THREAD (2)(3 6 (4 23)(44 7))\r\n",
    b"* THREAD ((3)(5))\r\n",
    b"* FLAGS (\\Answered kw)\r\n",
    b"* STATUS b (MESSAGES 231 UIDNEXT 44292)\r\n",
    b"* STATUS b (UIDVALIDITY 1 UNSEEN 0 HIGHESTMODSEQ 9 DELETED 1)\r\n",
    b"* 18 EXISTS\r\n",
    b"* 0 RECENT\r\n",
    b"* 3 EXPUNGE\r\n",
    b"* 1 FETCH (FLAGS (\\Seen \\Recent x))\r\n",
    b"* 1 FETCH (UID 4 RFC822.SIZE 44827)\r\n",
    b"* 1 FETCH (MODSEQ (624140003))\r\n",
    b"* 1 FETCH (INTERNALDATE \"17-Jul-1996 02:44:25 -0700\")\r\n",
    b"* 1 FETCH (RFC822 {3}\r\nabc RFC822.TEXT NIL)\r\n",
    b"* 1 FETCH (RFC822.HEADER \"h\")\r\n",
    b"* 1 FETCH (BODY[] {1}\r\nx)\r\n",
    b"* 1 FETCH (BODY[HEADER.FIELDS (DATE)]<0> \"x\")\r\n",
    b"* 1 FETCH (BODY[1.TEXT]<5> NIL)\r\n",
    b"* 1 FETCH (BINARY[1] ~{2}\r\n\0a BINARY.SIZE[2] 7)\r\n",
    b"* 1 FETCH (ENVELOPE (NIL \"s\" NIL NIL NIL NIL NIL NIL NIL \"i\"))\r\n",
    b"* 1 FETCH (ENVELOPE (\"d\" NIL ((\"n\" NIL \"m\" \"h\")) NIL NIL ((NIL NIL NIL NIL)(NIL NIL {1}\r\nx NIL)) NIL NIL NIL NIL))\r\n",
    b"* 1 FETCH (BODY (\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 2 1))\r\n",
    b"* 1 FETCH (BODY (\"APP\" \"X\" (\"n\" \"v\") \"i\" \"d\" \"B\" 4554))\r\n",
    b"* 1 FETCH (BODYSTRUCTURE (\"TEXT\" \"PLAIN\" (\"a\" \"b\" \"c\" \"d\") NIL NIL \"7BIT\" 2 1 NIL NIL NIL NIL))\r\n",
    b"* 1 FETCH (BODYSTRUCTURE (\"A\" \"X\" NIL NIL NIL \"B\" 1 \"m\" (\"inline\" (\"f\" \"g\")) (\"de\" \"en\") \"loc\" (1 \"x\" (NIL))))\r\n",
    b"* 1 FETCH (BODYSTRUCTURE ((\"A\" \"B\" NIL NIL NIL \"C\" 1)(\"D\" \"E\" NIL NIL NIL \"F\" 2) \"MIXED\" (\"b\" \"c\") NIL \"de\" \"l\"))\r\n",
    b"* 1 FETCH (BODY ((\"A\" \"B\" NIL NIL NIL \"C\" 1) \"ALT\"))\r\n",
    b"* 1 FETCH (BODY (\"MESSAGE\" \"RFC822\" NIL NIL NIL \"7\" 1 (NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL) (\"A\" \"B\" NIL NIL NIL \"C\" 1) 3))\r\n",
    b"* OK done\r\n",
    b"a NO [PARSE] x\r\n",
    b"a BAD [BADCHARSET (UTF-8 \"x\")] y\r\n",
    b"* BYE [UNAVAILABLE z] bye\r\n",
    b"a OK [PERMANENTFLAGS (\\Deleted \\*)] l\r\n",
    b"a OK [READ-ONLY] l\r\n",
    b"a OK [READ-WRITE] l\r\n",
    b"* NO [TRYCREATE] l\r\n",
    b"* OK [UIDVALIDITY 38] l\r\n",
    b"* OK [UNSEEN 12] l\r\n",
    b"a NO [COMPRESSIONACTIVE] l\r\n",
    b"a NO [OVERQUOTA] l\r\n",
    b"a NO [TOOBIG] l\r\n",
    b"a OK [METADATA LONGENTRIES 2199] l\r\n",
    b"a NO [METADATA MAXSIZE 1] l\r\n",
    b"a NO [METADATA TOOMANY] l\r\n",
    b"a NO [METADATA NOPRIVATE] l\r\n",
    b"a NO [UNKNOWN-CTE] l\r\n",
    b"a OK [APPENDUID 38505 3955] l\r\n",
    b"a OK [COPYUID 38505 304,319:320 3956:3958] l\r\n",
    b"a NO [UIDNOTSTICKY] l\r\n",
    b"* OK [HIGHESTMODSEQ 715194045007] l\r\n",
    b"* OK [NOMODSEQ] l\r\n",
    b"a OK [MODIFIED 7,9] l\r\n",
    b"* OK [CLOSED] l\r\n",
    b"* OK [CAPABILITY IMAP4rev1 ID] l\r\n",
    b"* ENABLED CONDSTORE X-A\r\n",
    b"* ENABLED\r\n",
    b"* QUOTA \"\" (STORAGE 10 512)\r\n",
    b"* QUOTA x (MESSAGE 1 2 X-Y 3 4)\r\n",
    b"* QUOTAROOT INBOX \"\" x\r\n",
    b"* QUOTAROOT x\r\n",
    b"* ID NIL\r\n",
    b"* ID (\"name\" \"Cyrus\" \"v\" NIL)\r\n",
    b"* METADATA \"\" (/shared/c \"x\")\r\n",
    b"* METADATA x (/a NIL /b {1}\r\ny)\r\n",
    b"* METADATA \"INBOX\" /shared/c /private/d\r\n",
    b"* NAMESPACE ((\"\" \"/\")) NIL ((\"#\" NIL)(\"x\" \".\" \"X-P\" (\"F\" \"G\")))\r\n",
    b"* VANISHED 41,43:116\r\n",
    b"* VANISHED (EARLIER) 1:2\r\n",
];

pub const CODECS: u32 = 5;

/// Messages of codec `k` in the order greeting, command, authenticate data,
/// response, idle-done.
pub fn of(k: u32) -> &'static [&'static [u8]] {
    match k {
        0 => GREETINGS,
        1 => COMMANDS,
        2 => AUTH,
        3 => RESPONSES,
        _ => IDLE,
    }
}

/// All messages with their codec, flattened.
pub fn total() -> u32 {
    (0..CODECS).map(|k| of(k).len() as u32).sum()
}

pub fn nth(mut i: u32) -> (u32, &'static [u8]) {
    let mut k = 0;
    loop {
        let l = of(k).len() as u32;
        if i < l {
            return (k, of(k)[i as usize]);
        }
        i -= l;
        k += 1;
    }
}
