//! Symbolic generators of IMAP messages.
//!
//! A generator starts from a default message and may deviate from it in at most
//! `G::b` places (a deviation is a non-default alternative of one field, an
//! optional part, or an extra list element).  A deviating string has symbolic
//! content.  All combinations within the bound are explored.
use crate::sym::*;
use imap_types::{
    auth::*, body::*, command::*, core::*, datetime::*, envelope::*, extensions::binary::*,
    extensions::compress::*, extensions::condstore_qresync::*, extensions::enable::*,
    extensions::metadata::*, extensions::namespace::*, extensions::quota::*, extensions::sort::*,
    extensions::thread::*, extensions::uidplus::*, extensions::utf8::*, fetch::*, flag::*,
    mailbox::*, response::*, search::*, secret::Secret, sequence::*, status::*,
};
use std::borrow::Cow;
use std::num::{NonZeroU32, NonZeroU64};

pub struct G {
    /// remaining deviations
    pub b: u32,
    /// maximal number of symbolic bytes of one string
    pub slen: usize,
    /// the default message has every optional part, and lists of several elements
    pub rich: bool,
    /// one list may have this many elements, or one string this many bytes
    pub many: usize,
    pub long: usize,
}

impl G {
    pub fn new(b: u32, slen: usize) -> G {
        G { b, slen, rich: false, many: 0, long: 0 }
    }
    pub fn rich(b: u32, slen: usize) -> G {
        G { b, slen, rich: true, many: 0, long: 0 }
    }
    /// In addition to `b` deviations, one list of `n` elements.
    pub fn many(b: u32, n: usize) -> G {
        G { b, slen: 1, rich: false, many: n, long: 0 }
    }
    /// In addition to `b` deviations, one string of `n` bytes.
    pub fn long(b: u32, n: usize) -> G {
        G { b, slen: 1, rich: false, many: 0, long: n }
    }
    /// A long string, with an arbitrary byte at the end.
    fn huge(&mut self) -> Option<Vec<u8>> {
        if self.long == 0 || choice(2) == 0 {
            return None;
        }
        let n = self.long;
        self.long = 0;
        let mut v = vec![b'a'; n];
        v[n - 1] = byte();
        Some(v)
    }

    /// One of `n` alternatives; 0 is the default.
    pub fn alt(&mut self, n: u32) -> u32 {
        if self.b == 0 {
            return 0;
        }
        let k = choice(n);
        if k != 0 {
            self.b -= 1;
        }
        k
    }
    pub fn flag(&mut self) -> bool {
        (self.alt(2) == 1) != self.rich
    }
    /// An alternative of an enumeration; not affected by `rich`.
    fn bool_(&mut self) -> bool {
        self.alt(2) == 1
    }
    /// As `alt`, but the last alternative is the default of the rich message.
    fn flip(&mut self, n: u32) -> u32 {
        let k = self.alt(n);
        if self.rich { n - 1 - k } else { k }
    }
    fn sb(&mut self, min: usize) -> Vec<u8> {
        bytes_upto(min, self.slen)
    }
    /// One of `n` alternatives that does not count as a deviation.
    fn pick(&mut self, n: u32) -> u32 {
        if self.b == 0 { 0 } else { choice(n) }
    }

    // ----- strings

    pub fn atom(&mut self) -> Atom<'static> {
        self.atom_d("abc")
    }
    pub fn atom_d(&mut self, d: &'static str) -> Atom<'static> {
        if let Some(v) = self.huge() {
            return need(Atom::try_from(v));
        }
        match self.alt(3) {
            0 => need(Atom::try_from(d)),
            1 => need(Atom::try_from(self.sb(1))),
            _ => need(Atom::try_from(vec![byte(); 130])),
        }
    }
    pub fn literal(&mut self) -> Literal<'static> {
        if let Some(v) = self.huge() {
            return need(Literal::try_from(v));
        }
        let k = self.alt(4);
        let mut l = match k {
            0 | 1 => need(Literal::try_from("lit")),
            2 => need(Literal::try_from(self.sb(0))),
            _ => need(Literal::try_from(vec![byte(); 300])),
        };
        l.set_mode(self.lit_mode(k));
        l
    }
    pub fn literal8(&mut self) -> Literal8<'static> {
        if let Some(v) = self.huge() {
            return Literal8 { data: Cow::Owned(v), mode: LiteralMode::Sync };
        }
        let k = self.alt(4);
        let data = match k {
            0 | 1 => b"l8".to_vec(),
            2 => self.sb(0),
            _ => vec![byte(); 300],
        };
        Literal8 { data: Cow::Owned(data), mode: self.lit_mode(k) }
    }
    fn lit_mode(&mut self, k: u32) -> LiteralMode {
        match k {
            0 => LiteralMode::Sync,
            1 => LiteralMode::NonSync,
            _ => [LiteralMode::Sync, LiteralMode::NonSync][choice(2) as usize],
        }
    }
    pub fn quoted(&mut self) -> Quoted<'static> {
        if let Some(v) = self.huge() {
            return need(Quoted::try_from(v));
        }
        match self.alt(3) {
            0 => need(Quoted::try_from("quo")),
            1 => need(Quoted::try_from(self.sb(0))),
            _ => need(Quoted::try_from(vec![byte(); 130])),
        }
    }
    /// A quoted string with at least one non-ASCII character and no NUL, CR, LF.
    pub fn quoted_utf8(&mut self) -> QuotedUtf8<'static> {
        let a = byte();
        assume(a < 0x80 && a != 0 && a != b'\r' && a != b'\n');
        let mut v = vec![a];
        match choice(3) {
            0 => {
                let x = byte();
                assume(x >= 0x80 && x < 0xc0);
                v.extend_from_slice(&[0xc3, x]);
            }
            1 => v.extend_from_slice("€".as_bytes()),
            _ => v.extend_from_slice("😀".as_bytes()),
        }
        let z = byte();
        assume(z < 0x80 && z != 0 && z != b'\r' && z != b'\n');
        v.push(z);
        QuotedUtf8(Cow::Owned(need(String::from_utf8(v))))
    }
    pub fn istring(&mut self) -> IString<'static> {
        if let Some(v) = self.huge() {
            return need(IString::try_from(v));
        }
        match self.alt(6) {
            0 => IString::Quoted(need(Quoted::try_from("str"))),
            1 => need(IString::try_from(self.sb(0))),
            2 => IString::Quoted(need(Quoted::try_from(self.sb(0)))),
            3 => {
                let mut l = need(Literal::try_from(self.sb(0)));
                if choice(2) == 1 {
                    l = l.into_non_sync();
                }
                IString::Literal(l)
            }
            4 => IString::QuotedUtf8(self.quoted_utf8()),
            _ => need(IString::try_from(vec![byte(); 130])),
        }
    }
    pub fn nstring(&mut self) -> NString<'static> {
        if self.bool_() { NString(None) } else { NString(Some(self.istring())) }
    }
    /// Default NIL.
    pub fn nil_or_string(&mut self) -> NString<'static> {
        if self.flag() { NString(Some(self.istring())) } else { NString(None) }
    }
    pub fn nstring8(&mut self) -> NString8<'static> {
        if self.pick(2) == 1 { NString8::Literal8(self.literal8()) } else { NString8::NString(self.nstring()) }
    }
    pub fn astring(&mut self) -> AString<'static> {
        if let Some(v) = self.huge() {
            return need(AString::try_from(v));
        }
        match self.alt(7) {
            0 => need(AString::try_from("abc")),
            1 => need(AString::try_from(self.sb(0))),
            2 => AString::Atom(need(AtomExt::try_from(self.sb(1)))),
            3 => AString::String(IString::Quoted(need(Quoted::try_from(self.sb(0))))),
            4 => {
                let mut l = need(Literal::try_from(self.sb(0)));
                if choice(2) == 1 {
                    l = l.into_non_sync();
                }
                AString::String(IString::Literal(l))
            }
            5 => AString::String(IString::QuotedUtf8(self.quoted_utf8())),
            _ => need(AString::try_from(vec![byte(); 130])),
        }
    }
    pub fn tag(&mut self) -> Tag<'static> {
        if let Some(v) = self.huge() {
            return need(Tag::try_from(v));
        }
        match self.alt(3) {
            0 => need(Tag::try_from("A1")),
            1 => need(Tag::try_from(self.sb(1))),
            _ => need(Tag::try_from(vec![byte(); 130])),
        }
    }
    /// Text; `first` says whether it may start with `[`.
    pub fn text(&mut self, bracket: bool) -> Text<'static> {
        if let Some(v) = self.huge() {
            return need(Text::try_from(v));
        }
        let v = match self.alt(3) {
            0 => return need(Text::try_from("text")),
            1 => self.sb(1),
            _ => vec![byte(); 260],
        };
        if !bracket {
            assume(v[0] != b'[');
        }
        need(Text::try_from(v))
    }
    pub fn charset(&mut self) -> Charset<'static> {
        if let Some(v) = self.huge() {
            return need(Charset::try_from(v));
        }
        match self.alt(4) {
            0 => need(Charset::try_from("UTF-8")),
            1 => need(Charset::try_from(self.sb(0))),
            2 => Charset::Atom(need(Atom::try_from(self.sb(1)))),
            _ => Charset::Quoted(need(Quoted::try_from(self.sb(0)))),
        }
    }
    pub fn mailbox(&mut self) -> Mailbox<'static> {
        if let Some(v) = self.huge() {
            return need(Mailbox::try_from(v));
        }
        match self.alt(8) {
            0 => Mailbox::Inbox,
            1 => Mailbox::from(AString::String(IString::Quoted(need(Quoted::try_from(self.sb(0)))))),
            2 => Mailbox::from(AString::Atom(need(AtomExt::try_from(self.sb(1))))),
            3 => {
                let mut l = need(Literal::try_from(self.sb(0)));
                if choice(2) == 1 {
                    l = l.into_non_sync();
                }
                Mailbox::from(AString::String(IString::Literal(l)))
            }
            4 => Mailbox::from(AString::String(IString::QuotedUtf8(self.quoted_utf8()))),
            5 => {
                // one symbolic byte in INBOX
                let mut v = b"INBOX".to_vec();
                let i = choice(6) as usize;
                if i < 5 {
                    v[i] = byte();
                } else {
                    v.push(byte());
                }
                need(Mailbox::try_from(v))
            }
            6 => need(Mailbox::try_from("a/b")),
            _ => need(Mailbox::try_from(self.sb(0))),
        }
    }
    pub fn list_mailbox(&mut self) -> ListMailbox<'static> {
        if let Some(v) = self.huge() {
            return need(ListMailbox::try_from(need(String::from_utf8(v))));
        }
        match self.alt(6) {
            0 => need(ListMailbox::try_from("*")),
            1 => ListMailbox::Token(need(ListCharString::try_from(need(String::from_utf8(self.sb(1)))))),
            2 => ListMailbox::String(IString::Quoted(need(Quoted::try_from(self.sb(0))))),
            3 => ListMailbox::String(IString::Literal(need(Literal::try_from(self.sb(0))))),
            4 => ListMailbox::String(IString::QuotedUtf8(self.quoted_utf8())),
            _ => need(ListMailbox::try_from(need(String::from_utf8(self.sb(0))))),
        }
    }
    pub fn quoted_char(&mut self) -> QuotedChar {
        match self.alt(2) {
            0 => need(QuotedChar::try_from('/')),
            _ => need(QuotedChar::try_from(byte() as char)),
        }
    }
    pub fn delimiter(&mut self) -> Option<QuotedChar> {
        if self.bool_() { None } else { Some(self.quoted_char()) }
    }
    /// Opaque bytes (base64 payloads).
    pub fn blob(&mut self) -> Vec<u8> {
        if let Some(v) = self.huge() {
            return v;
        }
        match self.alt(4) {
            0 => b"xyz!".to_vec(),
            1 => bytes_upto(0, 2),
            2 => {
                // every padding, a symbolic byte at the end
                let mut v = b"\x00\xff~\x80ab".to_vec();
                v.truncate(choice(7) as usize);
                v.push(byte());
                v
            }
            _ => vec![byte(); 100],
        }
    }

    // ----- numbers

    pub fn n32(&mut self) -> u32 {
        match self.alt(4) {
            0 => 7,
            1 => byte() as u32,
            2 => u32::MAX - byte() as u32,
            _ => (byte() as u32) << 20,
        }
    }
    pub fn nz32(&mut self) -> NonZeroU32 {
        need_some(NonZeroU32::new(self.n32()))
    }
    pub fn n64(&mut self) -> u64 {
        match self.alt(4) {
            0 => 7,
            1 => byte() as u64,
            2 => u64::MAX - byte() as u64,
            _ => (byte() as u64) << 32,
        }
    }
    pub fn nz64(&mut self) -> NonZeroU64 {
        need_some(NonZeroU64::new(self.n64()))
    }
    /// mod-sequence-value is a positive unsigned 63-bit... the codec takes u64.
    pub fn seq_or_uid(&mut self) -> SeqOrUid {
        match self.alt(4) {
            0 => SeqOrUid::Value(NonZeroU32::new(3).unwrap()),
            1 => SeqOrUid::Asterisk,
            2 => SeqOrUid::Value(NonZeroU32::new(10).unwrap()),
            _ => SeqOrUid::Value(NonZeroU32::new(4294967290).unwrap()),
        }
    }
    /// Sequence sets in normal form (the default configuration normalizes while encoding).
    pub fn seqset(&mut self) -> SequenceSet {
        match self.alt(5) {
            0 => need(SequenceSet::try_from("1")),
            1 => need(SequenceSet::try_from("*")),
            2 => need(SequenceSet::try_from("2:4")),
            3 => need(SequenceSet::try_from("9:*")),
            _ => need(SequenceSet::try_from("1:10,99,4294967000:4294967001")),
        }
    }
    pub fn uidset(&mut self) -> UidSet {
        let mut v = vec![];
        let one = |g: &mut G| match g.alt(2) {
            0 => UidElement::Single(g.nz32()),
            _ => UidElement::Range(g.nz32(), g.nz32()),
        };
        v.push(one(self));
        if self.flag() {
            v.push(one(self));
        }
        UidSet(Vec1::try_from(v).unwrap())
    }

    // ----- lists

    pub fn list<T>(&mut self, min: usize, mut f: impl FnMut(&mut G) -> T) -> Vec<T> {
        let mut v = vec![];
        if self.many > 0 && choice(2) == 1 {
            // the deviations are those of the last element
            let (n, b) = (self.many, self.b);
            self.many = 0;
            self.b = 0;
            for _ in 1..n {
                v.push(f(self));
            }
            self.b = b;
            v.push(f(self));
            return v;
        }
        for _ in 0..min {
            v.push(f(self));
        }
        if self.rich {
            let n = match self.alt(3) {
                0 => 2,
                1 => 0,
                _ => 11,
            };
            for _ in 0..n {
                v.push(f(self));
            }
            return v;
        }
        while v.len() < min + 3 && self.flag() {
            v.push(f(self));
        }
        v
    }
    pub fn list1<T>(&mut self, f: impl FnMut(&mut G) -> T) -> Vec1<T> {
        need(Vec1::try_from(self.list(1, f)))
    }

    // ----- dates

    fn ymd(&mut self) -> chrono::NaiveDate {
        let (mut y, mut m, mut d) = (2022, 2, 9);
        match self.alt(4) {
            0 => {}
            1 => {
                y = [0, 1, 999, 1000, 1969, 2024, 9999][choice(7) as usize];
            }
            2 => {
                m = 1 + choice(12);
            }
            _ => {
                m = [1, 2, 4, 12][choice(4) as usize];
                d = 1 + choice(31);
            }
        }
        need_some(chrono::NaiveDate::from_ymd_opt(y, m, d))
    }
    pub fn naive_date(&mut self) -> NaiveDate {
        need(NaiveDate::try_from(self.ymd()))
    }
    pub fn datetime(&mut self) -> DateTime {
        let d = self.ymd();
        let (mut h, mut mi, mut s) = (13u32, 30u32, 59u32);
        match self.alt(4) {
            0 => {}
            1 => h = [0, 1, 9, 10, 12, 22, 23][choice(7) as usize],
            2 => mi = [0, 1, 9, 10, 58, 59][choice(6) as usize],
            _ => s = [0, 1, 9, 10, 58][choice(5) as usize],
        }
        let off = match self.alt(2) {
            0 => 0,
            _ => [60, -60, 1, -1, 330, -570, 840, -720, 1439, -1439, 599, -599][choice(12) as usize] * 60,
        };
        let t = need_some(d.and_hms_opt(h, mi, s));
        let tz = need_some(chrono::FixedOffset::east_opt(off));
        let dt = need_some(t.and_local_timezone(tz).single());
        need(DateTime::try_from(dt))
    }

    // ----- flags

    pub fn flag_(&mut self) -> Flag<'static> {
        match self.alt(8) {
            0 => Flag::Seen,
            1 => Flag::Answered,
            2 => Flag::Deleted,
            3 => Flag::Draft,
            4 => Flag::Flagged,
            5 => {
                let v = self.sb(1);
                Flag::system(need(Atom::try_from(v)))
            }
            6 => Flag::keyword(need(Atom::try_from(self.sb(1)))),
            _ => Flag::system(need(Atom::try_from("Seen2"))),
        }
    }
    pub fn flags(&mut self) -> Vec<Flag<'static>> {
        self.list(0, |g| g.flag_())
    }
    pub fn attr_flag(&mut self) -> AttributeFlag<'static> {
        match self.alt(7) {
            0 => AttributeFlag::Seen,
            1 => AttributeFlag::Answered,
            2 => AttributeFlag::Deleted,
            3 => AttributeFlag::Draft,
            4 => AttributeFlag::Flagged,
            5 => AttributeFlag::system(need(Atom::try_from(self.sb(1)))),
            _ => AttributeFlag::keyword(need(Atom::try_from(self.sb(1)))),
        }
    }
    pub fn name_attr(&mut self) -> FlagNameAttribute<'static> {
        match self.alt(5) {
            0 => FlagNameAttribute::Noselect,
            1 => FlagNameAttribute::Noinferiors,
            2 => FlagNameAttribute::Marked,
            3 => FlagNameAttribute::Unmarked,
            _ => FlagNameAttribute::from(need(Atom::try_from(self.sb(1)))),
        }
    }

    // ----- fetch

    pub fn part(&mut self) -> Part {
        Part(self.list1(|g| g.nz32()))
    }
    pub fn opart(&mut self) -> Option<Part> {
        if self.flag() { Some(self.part()) } else { None }
    }
    pub fn section(&mut self) -> Section<'static> {
        match self.pick(6) {
            0 => Section::Text(self.opart()),
            1 => Section::Part(self.part()),
            2 => Section::Header(self.opart()),
            3 => Section::HeaderFields(self.opart(), self.list1(|g| g.astring())),
            4 => Section::HeaderFieldsNot(self.opart(), self.list1(|g| g.astring())),
            _ => Section::Mime(self.part()),
        }
    }
    pub fn osection(&mut self) -> Option<Section<'static>> {
        if self.bool_() { None } else { Some(self.section()) }
    }
    pub fn partial(&mut self) -> Option<(u32, NonZeroU32)> {
        if self.flag() { Some((self.n32(), self.nz32())) } else { None }
    }
    pub fn bin_section(&mut self) -> Vec<NonZeroU32> {
        self.list(0, |g| g.nz32())
    }
    pub fn item_name(&mut self) -> MessageDataItemName<'static> {
        use MessageDataItemName::*;
        match self.alt(14) {
            0 => Uid,
            1 => BodyExt { section: self.osection(), partial: self.partial(), peek: self.flag() },
            2 => BodyStructure,
            3 => Envelope,
            4 => Flags,
            5 => InternalDate,
            6 => Rfc822,
            7 => Rfc822Header,
            8 => Rfc822Size,
            9 => Rfc822Text,
            10 => Body,
            11 => Binary { section: self.bin_section(), partial: self.partial(), peek: self.flag() },
            12 => BinarySize { section: self.bin_section() },
            _ => ModSeq,
        }
    }
    pub fn macro_or_items(&mut self) -> MacroOrMessageDataItemNames<'static> {
        match self.alt(5) {
            0 => MacroOrMessageDataItemNames::MessageDataItemNames(self.list(1, |g| g.item_name())),
            1 => Macro::All.into(),
            2 => Macro::Fast.into(),
            3 => Macro::Full.into(),
            _ => MacroOrMessageDataItemNames::MessageDataItemNames(self.list(2, |g| g.item_name())),
        }
    }

    // ----- search

    pub fn search_key(&mut self, depth: u32) -> SearchKey<'static> {
        use SearchKey::*;
        let n = if depth == 0 { 35 } else { 38 };
        match self.alt(n) {
            0 => All,
            1 => Answered,
            2 => Bcc(self.astring()),
            3 => Before(self.naive_date()),
            4 => Body(self.astring()),
            5 => Cc(self.astring()),
            6 => Deleted,
            7 => Draft,
            8 => Flagged,
            9 => From(self.astring()),
            10 => Header(self.astring(), self.astring()),
            11 => Keyword(self.atom()),
            12 => Larger(self.n32()),
            13 => New,
            14 => Old,
            15 => On(self.naive_date()),
            16 => Recent,
            17 => Seen,
            18 => SentBefore(self.naive_date()),
            19 => SentOn(self.naive_date()),
            20 => SentSince(self.naive_date()),
            21 => Since(self.naive_date()),
            22 => Smaller(self.n32()),
            23 => Subject(self.astring()),
            24 => Text(self.astring()),
            25 => To(self.astring()),
            26 => Uid(self.seqset()),
            27 => Unanswered,
            28 => Undeleted,
            29 => Undraft,
            30 => Unflagged,
            31 => Unkeyword(self.atom()),
            32 => Unseen,
            33 => SequenceSet(self.seqset()),
            34 => ModSequence {
                entry: if self.flag() {
                    Some((
                        self.attr_flag(),
                        match self.alt(3) {
                            0 => EntryTypeReq::Private,
                            1 => EntryTypeReq::Shared,
                            _ => EntryTypeReq::All,
                        },
                    ))
                } else {
                    None
                },
                modseq: self.n64(),
            },
            35 => And(self.list1(|g| g.search_key(depth - 1))),
            36 => Not(Box::new(self.search_key(depth - 1))),
            _ => Or(Box::new(self.search_key(depth - 1)), Box::new(self.search_key(depth - 1))),
        }
    }
    pub fn criteria(&mut self) -> Vec1<SearchKey<'static>> {
        self.list1(|g| g.search_key(2))
    }
    pub fn sort_criterion(&mut self) -> SortCriterion {
        let key = match self.alt(9) {
            0 => SortKey::Arrival,
            1 => SortKey::Cc,
            2 => SortKey::Date,
            3 => SortKey::From,
            4 => SortKey::Size,
            5 => SortKey::Subject,
            6 => SortKey::To,
            7 => SortKey::DisplayFrom,
            _ => SortKey::DisplayTo,
        };
        SortCriterion { reverse: self.flag(), key }
    }
    pub fn threading(&mut self) -> ThreadingAlgorithm<'static> {
        match self.alt(3) {
            0 => ThreadingAlgorithm::References,
            1 => ThreadingAlgorithm::OrderedSubject,
            _ => ThreadingAlgorithm::from(need(Atom::try_from(self.sb(1)))),
        }
    }
    pub fn status_name(&mut self) -> StatusDataItemName {
        use StatusDataItemName::*;
        match self.alt(8) {
            0 => Messages,
            1 => Recent,
            2 => UidNext,
            3 => UidValidity,
            4 => Unseen,
            5 => Deleted,
            6 => DeletedStorage,
            _ => HighestModSeq,
        }
    }
    pub fn status_item(&mut self) -> StatusDataItem {
        use StatusDataItem::*;
        match self.alt(8) {
            0 => Messages(self.n32()),
            1 => Recent(self.n32()),
            2 => UidNext(self.nz32()),
            3 => UidValidity(self.nz32()),
            4 => Unseen(self.n32()),
            5 => Deleted(self.n32()),
            6 => DeletedStorage(self.n64()),
            _ => HighestModSeq(self.n64()),
        }
    }
    pub fn mechanism(&mut self) -> AuthMechanism<'static> {
        use AuthMechanism::*;
        match self.alt(12) {
            0 => Plain,
            1 => Login,
            2 => OAuthBearer,
            3 => XOAuth2,
            4 => ScramSha1,
            5 => ScramSha1Plus,
            6 => ScramSha256,
            7 => ScramSha256Plus,
            8 => ScramSha3_512,
            9 => ScramSha3_512Plus,
            10 => need(AuthMechanism::try_from("X-OTHER")),
            _ => need(AuthMechanism::try_from(self.sb(1))),
        }
    }
    pub fn select_params(&mut self) -> Vec<SelectParameter> {
        let k = self.alt(4);
        match if self.rich { 3 - k } else { k } {
            0 => vec![],
            1 => vec![SelectParameter::CondStore],
            2 => vec![self.qresync()],
            _ => vec![SelectParameter::CondStore, self.qresync()],
        }
    }
    fn qresync(&mut self) -> SelectParameter {
        SelectParameter::QResync {
            uid_validity: self.nz32(),
            mod_sequence_value: self.nz64(),
            known_uids: if self.flag() { Some(self.seqset_noast()) } else { None },
            seq_match_data: if self.flag() { Some((self.seqset_noast(), self.seqset_noast())) } else { None },
        }
    }
    /// Sets without `*` (forbidden in known-uids / sequence match data).
    pub fn seqset_noast(&mut self) -> SequenceSet {
        match self.alt(3) {
            0 => need(SequenceSet::try_from("1")),
            1 => need(SequenceSet::try_from("2:4")),
            _ => need(SequenceSet::try_from("1:10,99,4294967000:4294967001")),
        }
    }
    pub fn cap_enable(&mut self) -> CapabilityEnable<'static> {
        match self.alt(7) {
            0 => CapabilityEnable::CondStore,
            1 => CapabilityEnable::Metadata,
            2 => CapabilityEnable::MetadataServer,
            3 => CapabilityEnable::Utf8(Utf8Kind::Accept),
            4 => CapabilityEnable::Utf8(Utf8Kind::Only),
            5 => CapabilityEnable::from(need(Atom::try_from("X-ANY"))),
            _ => CapabilityEnable::from(need(Atom::try_from(self.sb(1)))),
        }
    }
    pub fn resource(&mut self) -> Resource<'static> {
        match self.alt(6) {
            0 => Resource::Storage,
            1 => Resource::Message,
            2 => Resource::Mailbox,
            3 => Resource::AnnotationStorage,
            4 => Resource::from(need(Atom::try_from("X-Res"))),
            _ => Resource::from(need(Atom::try_from(self.sb(1)))),
        }
    }
    pub fn entry(&mut self) -> Entry<'static> {
        match self.alt(2) {
            0 => need(Entry::try_from(need(AString::try_from("/shared/x")))),
            _ => need(Entry::try_from(self.astring())),
        }
    }
    pub fn entry_value(&mut self) -> EntryValue<'static> {
        EntryValue { entry: self.entry(), value: self.nstring8() }
    }
    pub fn id_params(&mut self) -> Option<Vec<(IString<'static>, NString<'static>)>> {
        if self.bool_() { None } else { Some(self.list(1, |g| (g.istring(), g.nstring()))) }
    }

    // ----- commands

    pub const COMMANDS: u32 = 42;

    pub fn command_body(&mut self, k: u32) -> CommandBody<'static> {
        use CommandBody as C;
        match k {
            0 => C::Capability,
            1 => C::Noop,
            2 => C::Logout,
            3 => C::StartTLS,
            4 => C::Authenticate {
                mechanism: self.mechanism(),
                initial_response: if self.flag() { Some(Secret::new(Cow::Owned(self.blob()))) } else { None },
            },
            5 => C::Login { username: self.astring(), password: Secret::new(self.astring()) },
            6 => C::Select { mailbox: self.mailbox(), parameters: self.select_params() },
            7 => C::Unselect,
            8 => C::Examine { mailbox: self.mailbox(), parameters: self.select_params() },
            9 => C::Create { mailbox: self.mailbox() },
            10 => C::Delete { mailbox: self.mailbox() },
            11 => C::Rename { from: self.mailbox(), to: self.mailbox() },
            12 => C::Subscribe { mailbox: self.mailbox() },
            13 => C::Unsubscribe { mailbox: self.mailbox() },
            14 => C::List { reference: self.mailbox(), mailbox_wildcard: self.list_mailbox() },
            15 => C::Lsub { reference: self.mailbox(), mailbox_wildcard: self.list_mailbox() },
            16 => C::Status { mailbox: self.mailbox(), item_names: Cow::Owned(self.list(1, |g| g.status_name())) },
            17 => C::Append {
                mailbox: self.mailbox(),
                flags: self.flags(),
                date: if self.flag() { Some(self.datetime()) } else { None },
                message: if self.pick(2) == 1 {
                    LiteralOrLiteral8::Literal8(self.literal8())
                } else {
                    LiteralOrLiteral8::Literal(self.literal())
                },
            },
            18 => C::Check,
            19 => C::Close,
            20 => C::Expunge,
            21 => C::ExpungeUid { sequence_set: self.seqset() },
            22 => C::Search {
                charset: if self.flag() { Some(self.charset()) } else { None },
                criteria: self.criteria(),
                uid: self.flag(),
            },
            23 => C::Sort {
                sort_criteria: self.list1(|g| g.sort_criterion()),
                charset: self.charset(),
                search_criteria: self.list1(|g| g.search_key(0)),
                uid: self.flag(),
            },
            24 => C::Thread {
                algorithm: self.threading(),
                charset: self.charset(),
                search_criteria: self.list1(|g| g.search_key(0)),
                uid: self.flag(),
            },
            25 => C::Fetch {
                sequence_set: self.seqset(),
                macro_or_item_names: self.macro_or_items(),
                uid: self.flag(),
                modifiers: match self.flip(4) {
                    0 => vec![],
                    1 => vec![FetchModifier::ChangedSince(self.nz64())],
                    2 => vec![FetchModifier::Vanished],
                    _ => vec![FetchModifier::ChangedSince(self.nz64()), FetchModifier::Vanished],
                },
            },
            26 => C::Store {
                sequence_set: self.seqset(),
                kind: match self.alt(3) {
                    0 => StoreType::Replace,
                    1 => StoreType::Add,
                    _ => StoreType::Remove,
                },
                response: if self.flag() { StoreResponse::Silent } else { StoreResponse::Answer },
                flags: self.flags(),
                uid: self.flag(),
                modifiers: if self.flag() { vec![StoreModifier::UnchangedSince(self.n64())] } else { vec![] },
            },
            27 => C::Copy { sequence_set: self.seqset(), mailbox: self.mailbox(), uid: self.flag() },
            28 => C::Idle,
            29 => C::Enable { capabilities: self.list1(|g| g.cap_enable()) },
            30 => C::Compress { algorithm: CompressionAlgorithm::Deflate },
            31 => C::GetQuota { root: self.astring() },
            32 => C::GetQuotaRoot { mailbox: self.mailbox() },
            33 => C::SetQuota {
                root: self.astring(),
                quotas: self.list(0, |g| QuotaSet::new(g.resource(), g.n64())),
            },
            34 => C::Move { sequence_set: self.seqset(), mailbox: self.mailbox(), uid: self.flag() },
            35 => C::Id { parameters: self.id_params() },
            36 => C::SetMetadata { mailbox: self.mailbox(), entry_values: self.list1(|g| g.entry_value()) },
            37 => C::GetMetadata {
                options: match self.flip(4) {
                    0 => vec![],
                    1 => vec![GetMetadataOption::MaxSize(self.n32())],
                    2 => vec![GetMetadataOption::Depth(self.depth())],
                    _ => vec![GetMetadataOption::MaxSize(self.n32()), GetMetadataOption::Depth(self.depth())],
                },
                mailbox: self.mailbox(),
                entries: self.list1(|g| g.entry()),
            },
            38 => C::Namespace,
            // deeper variants of the two richest commands
            39 => C::Search { charset: None, criteria: Vec1::from(self.search_key(7)), uid: false },
            41 => C::Search {
                charset: None,
                criteria: need(Vec1::try_from(vec![
                    SearchKey::Not(Box::new(SearchKey::Or(
                        Box::new(self.search_key(0)),
                        Box::new(SearchKey::And(need(Vec1::try_from(vec![self.search_key(0), self.search_key(1)])))),
                    ))),
                    SearchKey::Seen,
                ])),
                uid: false,
            },
            _ => C::Fetch {
                sequence_set: need(SequenceSet::try_from("1")),
                macro_or_item_names: MacroOrMessageDataItemNames::MessageDataItemNames(vec![
                    MessageDataItemName::BodyExt { section: self.osection(), partial: self.partial(), peek: self.flag() },
                    MessageDataItemName::Uid,
                ]),
                uid: false,
                modifiers: vec![],
            },
        }
    }
    fn depth(&mut self) -> Depth {
        match self.alt(3) {
            0 => Depth::Null,
            1 => Depth::One,
            _ => Depth::Infinity,
        }
    }
    pub fn command(&mut self, k: u32) -> Command<'static> {
        let tag = self.tag();
        let body = self.command_body(k);
        Command { tag, body }
    }

    // ----- responses

    pub fn capability(&mut self) -> Capability<'static> {
        use Capability as C;
        match self.alt(33) {
            0 => C::Imap4Rev1,
            1 => C::Auth(self.mechanism()),
            2 => C::LoginDisabled,
            3 => C::StartTls,
            4 => C::Idle,
            5 => C::MailboxReferrals,
            6 => C::LoginReferrals,
            7 => C::SaslIr,
            8 => C::Enable,
            9 => C::Compress { algorithm: CompressionAlgorithm::Deflate },
            10 => C::Quota,
            11 => C::QuotaRes(self.resource()),
            12 => C::QuotaSet,
            13 => C::LiteralPlus,
            14 => C::LiteralMinus,
            15 => C::Move,
            16 => C::Id,
            17 => C::Unselect,
            18 => C::Sort(None),
            19 => C::Sort(Some(SortAlgorithm::Display)),
            20 => C::Sort(Some(SortAlgorithm::from(need(Atom::try_from(self.sb(1)))))),
            21 => C::Thread(self.threading()),
            22 => C::Metadata,
            23 => C::MetadataServer,
            24 => C::Binary,
            25 => C::UidPlus,
            26 => C::CondStore,
            27 => C::QResync,
            28 => C::Namespace,
            29 => C::Utf8(Utf8Kind::Accept),
            30 => C::Utf8(Utf8Kind::Only),
            31 => C::from(need(Atom::try_from("X-OTHER=1"))),
            _ => C::from(need(Atom::try_from(self.sb(1)))),
        }
    }
    pub fn capabilities(&mut self) -> Vec1<Capability<'static>> {
        self.list1(|g| g.capability())
    }
    pub fn code(&mut self) -> Code<'static> {
        use Code as C;
        match self.alt(27) {
            0 => C::Alert,
            1 => C::BadCharset { allowed: self.list(0, |g| g.charset()) },
            2 => C::Capability(self.capabilities()),
            3 => C::Parse,
            4 => C::PermanentFlags(self.list(0, |g| match g.alt(2) {
                0 => FlagPerm::Asterisk,
                _ => FlagPerm::Flag(g.flag_()),
            })),
            5 => C::ReadOnly,
            6 => C::ReadWrite,
            7 => C::TryCreate,
            8 => C::UidNext(self.nz32()),
            9 => C::UidValidity(self.nz32()),
            10 => C::Unseen(self.nz32()),
            11 => C::CompressionActive,
            12 => C::OverQuota,
            13 => C::TooBig,
            14 => C::Metadata(MetadataCode::LongEntries(self.n32())),
            15 => C::Metadata(MetadataCode::MaxSize(self.n32())),
            16 => C::Metadata(MetadataCode::TooMany),
            17 => C::Metadata(MetadataCode::NoPrivate),
            18 => C::UnknownCte,
            19 => C::AppendUid { uid_validity: self.nz32(), uid: self.nz32() },
            20 => C::CopyUid { uid_validity: self.nz32(), source: self.uidset(), destination: self.uidset() },
            21 => C::UidNotSticky,
            22 => C::HighestModSeq(self.nz64()),
            23 => C::Modified(self.seqset_noast()),
            24 => C::NoModSeq,
            25 => C::Closed,
            _ => C::Other(CodeOther::unvalidated(b"X-CODE 1".to_vec())),
        }
    }
    pub fn ocode(&mut self) -> Option<Code<'static>> {
        if self.flag() { Some(self.code()) } else { None }
    }
    pub fn greeting(&mut self) -> Greeting<'static> {
        let kind = match self.alt(3) {
            0 => GreetingKind::Ok,
            1 => GreetingKind::PreAuth,
            _ => GreetingKind::Bye,
        };
        let code = self.ocode();
        let text = self.text(code.is_some());
        Greeting { kind, code, text }
    }
    pub fn status_body(&mut self) -> StatusBody<'static> {
        let kind = match self.alt(3) {
            0 => StatusKind::Ok,
            1 => StatusKind::No,
            _ => StatusKind::Bad,
        };
        let code = self.ocode();
        let text = self.text(code.is_some());
        StatusBody { kind, code, text }
    }
    pub fn status_untagged(&mut self) -> Status<'static> {
        Status::Untagged(self.status_body())
    }
    pub fn status_tagged(&mut self) -> Status<'static> {
        Status::Tagged(Tagged { tag: self.tag(), body: self.status_body() })
    }
    pub fn status_bye(&mut self) -> Status<'static> {
        let code = self.ocode();
        let text = self.text(code.is_some());
        Status::Bye(Bye { code, text })
    }
    pub fn status(&mut self) -> Status<'static> {
        match choice(3) {
            0 => self.status_untagged(),
            1 => self.status_tagged(),
            _ => self.status_bye(),
        }
    }
    pub fn continuation(&mut self) -> CommandContinuationRequest<'static> {
        match choice(2) {
            0 => {
                let code = self.ocode();
                let text = match self.alt(3) {
                    0 => need(Text::try_from("more, please")),
                    1 => need(Text::try_from(bytes_upto(1, 4))),
                    _ => need(Text::try_from(vec![byte(); 9])),
                };
                need(CommandContinuationRequest::basic(code, text))
            }
            _ => CommandContinuationRequest::Base64(Cow::Owned(self.blob())),
        }
    }
    pub fn address(&mut self) -> Address<'static> {
        Address { name: self.nil_or_string(), adl: self.nil_or_string(), mailbox: self.nil_or_string(), host: self.nil_or_string() }
    }
    pub fn addresses(&mut self) -> Vec<Address<'static>> {
        if self.many > 0 {
            return self.list(0, |g| g.address());
        }
        let k = self.alt(3);
        match if self.rich { 2 - k } else { k } {
            0 => vec![],
            1 => vec![self.address()],
            _ => vec![self.address(), self.address()],
        }
    }
    pub fn envelope(&mut self) -> Envelope<'static> {
        Envelope {
            date: self.nil_or_string(),
            subject: self.nil_or_string(),
            from: self.addresses(),
            sender: self.addresses(),
            reply_to: self.addresses(),
            to: self.addresses(),
            cc: self.addresses(),
            bcc: self.addresses(),
            in_reply_to: self.nil_or_string(),
            message_id: self.nil_or_string(),
        }
    }
    fn params(&mut self) -> Vec<(IString<'static>, IString<'static>)> {
        self.list(0, |g| (g.istring(), g.istring()))
    }
    pub fn basic_fields(&mut self) -> BasicFields<'static> {
        BasicFields {
            parameter_list: self.params(),
            id: self.nil_or_string(),
            description: self.nil_or_string(),
            content_transfer_encoding: self.istring(),
            size: self.n32(),
        }
    }
    pub fn body(&mut self, depth: u32) -> Body<'static> {
        let basic = self.basic_fields();
        let n = if depth == 0 { 2 } else { 3 };
        let specific = match self.alt(n) {
            0 => SpecificFields::Text { subtype: self.istring(), number_of_lines: self.n32() },
            1 => SpecificFields::Basic {
                // a basic body is one whose type is neither TEXT nor MESSAGE/RFC822
                r#type: match self.alt(2) {
                    0 => need(IString::try_from("IMAGE")),
                    _ => self.istring(),
                },
                subtype: self.istring(),
            },
            _ => SpecificFields::Message {
                envelope: Box::new(self.envelope()),
                body_structure: Box::new(self.body_structure(depth - 1)),
                number_of_lines: self.n32(),
            },
        };
        Body { basic, specific }
    }
    fn disposition(&mut self) -> Disposition<'static> {
        Disposition {
            disposition: if self.flag() { Some((self.istring(), self.params())) } else { None },
            tail: if self.flag() {
                Some(Language {
                    language: self.list(0, |g| g.istring()),
                    tail: if self.flag() {
                        Some(Location {
                            location: self.nil_or_string(),
                            extensions: self.list(0, |g| g.body_extension(2)),
                        })
                    } else {
                        None
                    },
                })
            } else {
                None
            },
        }
    }
    pub fn body_extension(&mut self, depth: u32) -> BodyExtension<'static> {
        match self.alt(if depth == 0 { 2 } else { 3 }) {
            0 => BodyExtension::Number(self.n32()),
            1 => BodyExtension::NString(self.nil_or_string()),
            _ => BodyExtension::List(self.list1(|g| g.body_extension(depth - 1))),
        }
    }
    pub fn body_structure(&mut self, depth: u32) -> BodyStructure<'static> {
        match self.alt(if depth == 0 { 1 } else { 2 }) {
            0 => {
                let body = self.body(depth);
                self.single(body)
            }
            _ => self.multi(depth - 1),
        }
    }
    fn single(&mut self, body: Body<'static>) -> BodyStructure<'static> {
        BodyStructure::Single {
            body,
            extension_data: if self.flag() {
                Some(SinglePartExtensionData {
                    md5: self.nil_or_string(),
                    tail: if self.flag() { Some(self.disposition()) } else { None },
                })
            } else {
                None
            },
        }
    }
    fn multi(&mut self, depth: u32) -> BodyStructure<'static> {
        BodyStructure::Multi {
            bodies: self.list1(|g| g.body_structure(depth)),
            subtype: self.istring(),
            extension_data: if self.flag() {
                Some(MultiPartExtensionData {
                    parameter_list: self.params(),
                    tail: if self.flag() { Some(self.disposition()) } else { None },
                })
            } else {
                None
            },
        }
    }
    fn message(&mut self, depth: u32) -> BodyStructure<'static> {
        let body = Body {
            basic: self.basic_fields(),
            specific: SpecificFields::Message {
                envelope: Box::new(self.envelope()),
                body_structure: Box::new(self.body_structure(depth)),
                number_of_lines: self.n32(),
            },
        };
        self.single(body)
    }
    fn basic(&mut self) -> BodyStructure<'static> {
        let body = Body {
            basic: self.basic_fields(),
            specific: SpecificFields::Basic { r#type: need(IString::try_from("IMAGE")), subtype: self.istring() },
        };
        self.single(body)
    }
    pub fn flag_fetch(&mut self) -> FlagFetch<'static> {
        match self.alt(2) {
            0 => FlagFetch::Recent,
            _ => FlagFetch::Flag(self.flag_()),
        }
    }

    /// Number of kinds of message data items.
    pub const ITEMS: u32 = 14;

    pub fn item(&mut self, k: u32) -> MessageDataItem<'static> {
        use MessageDataItem as M;
        match k {
            0 => M::Uid(self.nz32()),
            1 => M::Body(self.body_structure(2)),
            2 => M::BodyExt {
                section: self.osection(),
                origin: if self.flag() { Some(self.n32()) } else { None },
                data: self.nstring(),
            },
            3 => M::BodyStructure(self.body_structure(2)),
            4 => M::Envelope(self.envelope()),
            5 => M::Flags(self.list(0, |g| g.flag_fetch())),
            6 => M::InternalDate(self.datetime()),
            7 => M::Rfc822(self.nstring()),
            8 => M::Rfc822Header(self.nstring()),
            9 => M::Rfc822Size(self.n32()),
            10 => M::Rfc822Text(self.nstring()),
            11 => M::Binary { section: self.bin_section(), value: self.nstring8() },
            12 => M::BinarySize { section: self.bin_section(), size: self.n32() },
            _ => M::ModSeq(self.nz64()),
        }
    }
    fn thread_members(&mut self) -> Vec1<NonZeroU32> {
        self.list1(|g| g.nz32())
    }
    pub fn thread(&mut self, depth: u32) -> Thread {
        match self.alt(if depth == 0 { 1 } else { 3 }) {
            0 => Thread::Members { prefix: self.thread_members(), answers: None },
            1 => Thread::Members {
                prefix: self.thread_members(),
                answers: Some(need(Vec2::try_from(self.list(2, |g| g.thread(depth - 1))))),
            },
            _ => Thread::Nested { answers: need(Vec2::try_from(self.list(2, |g| g.thread(depth - 1)))) },
        }
    }
    pub fn namespaces(&mut self) -> Namespaces<'static> {
        self.list(0, |g| {
            let mut n = Namespace::new(g.istring(), g.delimiter());
            n.extensions = g.list(0, |g| NamespaceResponseExtension { key: g.istring(), values: g.list1(|g| g.istring()) });
            n
        })
    }

    fn fetched(&mut self, f: fn(&mut G) -> BodyStructure<'static>) -> Data<'static> {
        let b = f(self);
        let item = if self.bool_() { MessageDataItem::Body(b) } else { MessageDataItem::BodyStructure(b) };
        Data::Fetch { seq: NonZeroU32::new(12).unwrap(), items: Vec1::from(item) }
    }

    pub const DATA: u32 = 20 + 14 + 4;

    pub fn data(&mut self, k: u32) -> Data<'static> {
        use Data as D;
        match k {
            0 => D::Capability(self.capabilities()),
            1 => D::List { items: self.list(0, |g| g.name_attr()), delimiter: self.delimiter(), mailbox: self.mailbox() },
            2 => D::Lsub { items: self.list(0, |g| g.name_attr()), delimiter: self.delimiter(), mailbox: self.mailbox() },
            3 => D::Status { mailbox: self.mailbox(), items: Cow::Owned(self.list(0, |g| g.status_item())) },
            4 => {
                let v = self.list(0, |g| g.nz32());
                let m = if self.flag() && !v.is_empty() { Some(self.nz64()) } else { None };
                D::Search(v, m)
            }
            5 => {
                let v = self.list(0, |g| g.nz32());
                let m = if self.flag() && !v.is_empty() { Some(self.nz64()) } else { None };
                D::Sort(v, m)
            }
            6 => D::Thread(self.list(0, |g| g.thread(3))),
            7 => D::Flags(self.flags()),
            8 => D::Exists(self.n32()),
            9 => D::Recent(self.n32()),
            10 => D::Expunge(self.nz32()),
            11 => D::Enabled { capabilities: self.list(0, |g| g.cap_enable()) },
            12 => D::Quota {
                root: self.astring(),
                quotas: self.list1(|g| QuotaGet::new(g.resource(), g.n64(), g.n64())),
            },
            13 => D::QuotaRoot { mailbox: self.mailbox(), roots: self.list(0, |g| g.astring()) },
            14 => D::Id { parameters: self.id_params() },
            15 => D::Metadata {
                mailbox: self.mailbox(),
                items: match self.alt(2) {
                    0 => MetadataResponse::WithValues(self.list1(|g| g.entry_value())),
                    _ => MetadataResponse::WithoutValues(self.list1(|g| g.entry())),
                },
            },
            16 => D::Vanished { earlier: self.flag(), known_uids: self.seqset_noast() },
            17 => D::Namespace { personal: self.namespaces(), other: self.namespaces(), shared: self.namespaces() },
            18 => {
                // several items of any kind, at their defaults
                let (a, b) = (choice(Self::ITEMS), choice(Self::ITEMS));
                self.b = 0;
                D::Fetch { seq: self.nz32(), items: need(Vec1::try_from(vec![self.item(a), self.item(b)])) }
            }
            19 => D::Fetch { seq: self.nz32(), items: Vec1::from(MessageDataItem::Rfc822Size(1)) },
            34 => self.fetched(|g| g.multi(1)),
            35 => self.fetched(|g| g.message(1)),
            36 => self.fetched(|g| g.basic()),
            37 => {
                let answers = |g: &mut G| need(Vec2::try_from(vec![g.thread(1), g.thread(0)]));
                D::Thread(vec![
                    Thread::Nested { answers: answers(self) },
                    Thread::Members { prefix: self.thread_members(), answers: Some(answers(self)) },
                ])
            }
            _ => D::Fetch { seq: NonZeroU32::new(12).unwrap(), items: Vec1::from(self.item(k - 20)) },
        }
    }
    pub fn auth_data(&mut self) -> AuthenticateData<'static> {
        match choice(2) {
            0 => AuthenticateData::Continue(Secret::new(Cow::Owned(self.blob()))),
            _ => AuthenticateData::Cancel,
        }
    }
}
