M='crates/tls-core/src/msgs/'; C='crates/tls-core/src/'
X='crates/server-fixture/certs/src/'

seed('s01-vec16-256', 'C01', 'a u16-length-prefixed list whose content is exactly 256 bytes long',
 'the length prefix of such a list is written as 0, so the encoded message is not what the RFC prescribes and cannot be read back',
 [(M+'codec.rs', '''    *out = u16::to_be_bytes(len as u16);
}

pub fn encode_vec_u24''', '''    // Lists this short need only the low byte, which is the common case.
    out[1] = len as u8;
    if len > 0x100 {
        *out = u16::to_be_bytes(len as u16);
    }
}

pub fn encode_vec_u24''')],
 r'''
use tls_core::msgs::{codec::Codec, enums::*, handshake::*};
fn main() {
    for n in [1usize, 127, 128, 129, 300] {
        let ch = ClientHelloPayload {
            client_version: ProtocolVersion::TLSv1_2,
            random: Random::from([7u8; 32]),
            session_id: SessionID::empty(),
            cipher_suites: (0..n).map(|i| CipherSuite::from(i as u16)).collect(),
            compression_methods: vec![Compression::Null],
            extensions: vec![ClientExtension::ExtendedMasterSecretRequest],
        };
        let b = ch.get_encoding();
        assert_eq!(&b[35..37], &((2 * n) as u16).to_be_bytes(), "length of {n} suites");
        let back = ClientHelloPayload::read_bytes(&b).expect("reads back");
        assert_eq!(back.cipher_suites.len(), n);
    }
}
''')

seed('s02-odd-list', 'C02', 'a list with a one-byte length (such as supported_versions) whose length is not a multiple of the size of its elements',
 'the incomplete last element is silently dropped instead of the message being refused',
 [(M+'codec.rs', '''    let len = usize::from(u8::read(r)?);
    let mut sub = r.sub(len)?;

    while sub.any_left() {
        ret.push(T::read(&mut sub)?);
    }
''', '''    let len = usize::from(u8::read(r)?);
    let mut sub = r.sub(len)?;

    while sub.any_left() {
        match T::read(&mut sub) {
            Some(item) => ret.push(item),
            None if ret.is_empty() => return None,
            None => break,
        }
    }
''')],
 r'''
use tls_core::msgs::{codec::Codec, handshake::*};
fn main() {
    // supported_versions, 5 bytes: 0304 0303 03
    assert!(ClientExtension::read_bytes(&[0, 43, 0, 5, 4, 3, 4, 3, 3]).is_some());
    assert!(ClientExtension::read_bytes(&[0, 43, 0, 6, 5, 3, 4, 3, 3, 3]).is_none(), "odd list accepted");
    assert!(ClientExtension::read_bytes(&[0, 43, 0, 2, 1, 3]).is_none());
}
''')

seed('s03-empty-alert', 'C03', 'an alert or change-cipher-spec record of length zero',
 'records with an illegal zero length are accepted',
 [(M+'message.rs', "        if typ != ContentType::ApplicationData && len == 0 {", "        if typ == ContentType::Handshake && len == 0 {")],
 r'''
use tls_core::msgs::{codec::Reader, message::OpaqueMessage};
fn main() {
    for t in [20u8, 21, 22, 24] {
        assert!(OpaqueMessage::read(&mut Reader::init(&[t, 3, 3, 0, 0])).is_err(), "type {t}");
        assert!(OpaqueMessage::read(&mut Reader::init(&[t, 3, 3, 0, 1, 1])).is_ok(), "type {t}");
    }
    assert!(OpaqueMessage::read(&mut Reader::init(&[23, 3, 3, 0, 0])).is_ok());
}
''')

seed('s04-lazy-compaction', 'C04', 'a small record followed, in the same buffered data, by a record close to the maximal size',
 'the buffer is compacted only once its first half is used up, so the large record never fits: reads return 0 as at the end of the stream and the record is lost',
 [(M+'deframer.rs', '''    /// What size prefix of `buf` is used.
    used: usize,
}
''', '''    /// What size prefix of `buf` is used.
    used: usize,

    /// How much of the front of `buf` was already taken.
    taken: usize,
}
'''), (M+'deframer.rs', '''            used: 0,
        }
    }
''', '''            used: 0,
            taken: 0,
        }
    }
'''), (M+'deframer.rs', "let mut rd = codec::Reader::init(&self.buf[..self.used]);", "let mut rd = codec::Reader::init(&self.buf[self.taken..self.used]);"),
 (M+'deframer.rs', '''            self.buf.copy_within(taken..self.used, 0);
            self.used -= taken;
        } else if taken == self.used {
            self.used = 0;
        }''', '''            // Moving the pending bytes for every record is quadratic when there
            // are many small ones, so do it only once enough space was freed.
            self.taken = taken;
            if taken > self.buf.len() / 2 {
                self.buf.copy_within(taken..self.used, 0);
                self.used -= taken;
                self.taken = 0;
            }
        } else if taken == self.used {
            self.used = 0;
            self.taken = 0;
        }'''),
 (M+'deframer.rs', "                self.buf_consume(used);", "                self.buf_consume(self.taken + used);")],
 r'''
use std::io::Read;
use tls_core::msgs::deframer::MessageDeframer;
struct R<'a>(&'a [u8]);
impl Read for R<'_> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(self.0.len()); b[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; Ok(n) } }
fn main() {
    let mut s = vec![];
    let mut n = 0;
    for len in [16usize, 40, 18431, 3, 16384, 1] {
        s.extend([23, 3, 3, (len >> 8) as u8, len as u8]);
        s.extend(std::iter::repeat(len as u8).take(len));
        n += 1;
    }
    let mut r = R(&s);
    let mut d = MessageDeframer::new();
    let mut got = 0;
    for _ in 0..20 { d.read(&mut r).unwrap(); assert!(!d.desynced); got += d.frames.drain(..).count(); }
    assert_eq!(got, n);
}
''')

seed('s05-oversize', 'C05', 'a message body that exceeds the fragment limit by at most five bytes',
 'the message is not cut, so one record is longer than the configured maximum',
 [(M+'fragmenter.rs', "        if msg.payload.0.len() <= self.max_frag {", "        if msg.payload.0.len() <= self.max_frag.next_multiple_of(PACKET_OVERHEAD) {")],
 r'''
use std::collections::VecDeque;
use tls_core::msgs::{base::Payload, enums::*, fragmenter::*, message::PlainMessage};
fn main() {
    for size in [32usize, 33, 40, 64, 100, 101, 4096, MAX_FRAGMENT_SIZE] {
        for over in 0..8usize {
            let max = size - PACKET_OVERHEAD;
            let mut q = VecDeque::new();
            let m = PlainMessage { typ: ContentType::Handshake, version: ProtocolVersion::TLSv1_2, payload: Payload::new(vec![1; max + over]) };
            MessageFragmenter::new(Some(size)).unwrap().fragment(m, &mut q);
            assert!(q.iter().all(|m| m.payload.0.len() <= max), "size {size} over {over}");
        }
    }
}
''')

seed('s06-stale-length', 'C06', 'a record that ends inside the body of a second, longer handshake message',
 'the length of the previous message is still used for the next one, so a message that is merely incomplete is refused as corrupt',
 [(M+'hsjoiner.rs', '''    /// The message payload we're currently accumulating.
    buf: Vec<u8>,
}
''', '''    /// The message payload we're currently accumulating.
    buf: Vec<u8>,

    /// The size of the message at the front of `buf`, once known.
    expected: Option<usize>,
}
'''), (M+'hsjoiner.rs', '''            buf: Vec::new(),
        }''', '''            buf: Vec::new(),
            expected: None,
        }'''), (M+'hsjoiner.rs', '''    fn buf_contains_message(&self) -> BufferState {''', '''    fn buf_contains_message(&mut self) -> BufferState {
        if let Some(expected) = self.expected {
            return match self.buf.len() >= expected {
                true => BufferState::OneMessage,
                false => BufferState::NeedsMoreData,
            };
        }
'''), (M+'hsjoiner.rs', '''            Some(len) if rest.get(..len.into()).is_some() => BufferState::OneMessage,
            _ => BufferState::NeedsMoreData,''', '''            Some(len) if rest.get(..len.into()).is_some() => BufferState::OneMessage,
            Some(len) => {
                self.expected = Some(HEADER_SIZE + usize::from(len));
                BufferState::NeedsMoreData
            }
            _ => BufferState::NeedsMoreData,'''),
 (M+'hsjoiner.rs', '''        self.buf = self.buf.split_off(used);
''', '''        self.buf = self.buf.split_off(used);
        if self.buf.is_empty() {
            self.expected = None;
        }
''')],
 r'''
use tls_core::msgs::{base::Payload, enums::*, hsjoiner::HandshakeJoiner, message::PlainMessage};
fn rec(b: &[u8]) -> PlainMessage { PlainMessage { typ: ContentType::Handshake, version: ProtocolVersion::TLSv1_2, payload: Payload::new(b.to_vec()) } }
fn main() {
    // two Finished messages, of 6 and of 12 bytes
    let mut s = vec![20, 0, 0, 6]; s.extend([1; 6]); s.extend([20, 0, 0, 12]); s.extend([2; 12]);
    for a in 1..s.len() - 1 { for b in a + 1..s.len() {
        let mut j = HandshakeJoiner::new();
        let mut n = 0;
        for part in [&s[..a], &s[a..b], &s[b..]] { n += j.take_message(rec(part)).unwrap_or_else(|| panic!("refused at {a} {b}")); }
        assert_eq!(n, 2, "{a} {b}");
        assert!(j.is_empty());
    } }
}
''')

seed('s09-long-secret', 'C09', 'a secret longer than the 64-byte block of the hash (as from a finite-field or 521-bit key exchange)',
 'secrets longer than the hash block are cut instead of hashed, so the derived keys differ from those of the peer',
 [(C+'prf.rs', "    let keyed_hmac = Hmac::new_from_slice(secret).map_err(|_| InvalidKeyLength)?;", '''    // Only the first block of the key enters the HMAC.
    let secret = &secret[..secret.len().min(64)];
    let keyed_hmac = Hmac::new_from_slice(secret).map_err(|_| InvalidKeyLength)?;''')],
 r'''
use ring::hmac;
fn reference(out: &mut [u8], secret: &[u8], label: &[u8], seed: &[u8]) {
    let k = hmac::Key::new(hmac::HMAC_SHA256, secret);
    let s = [label, seed].concat();
    let mut a = hmac::sign(&k, &s);
    for c in out.chunks_mut(32) {
        let p = hmac::sign(&k, &[a.as_ref(), &s].concat());
        c.copy_from_slice(&p.as_ref()[..c.len()]);
        a = hmac::sign(&k, a.as_ref());
    }
}
fn main() {
    for n in [0usize, 1, 32, 48, 63, 64, 65, 66, 128, 256] {
        let s: Vec<u8> = (0..n).map(|i| i as u8).collect();
        let (mut x, mut y) = ([0u8; 104], [0u8; 104]);
        tls_core::prf::prf(&mut x, &s, b"key expansion", &[3; 64]).unwrap();
        reference(&mut y, &s, b"key expansion", &[3; 64]);
        assert_eq!(x, y, "secret of {n} bytes");
    }
}
''', 'ring = "0.17"')

seed('s10-last-scheme', 'C10', 'a suite of ECDSA type asked about the Ed25519 signature type',
 'a suite is judged by its least preferred scheme only, so suites usable with Ed25519 keys are dropped',
 [(C+'suites/mod.rs', "                inner.sign.iter().any(|scheme| scheme.sign() == _sig_alg)", "                // the schemes of a suite all belong to the same algorithm\n                inner.sign.last().map(|scheme| scheme.sign()) == Some(_sig_alg)")],
 r'''
use tls_core::{msgs::enums::*, msgs::handshake::DecomposedSignatureScheme, suites::*};
fn main() {
    let all = ALL_CIPHER_SUITES;
    assert_eq!(reduce_given_sigalg(all, SignatureAlgorithm::RSA).len(), 1);
    assert_eq!(reduce_given_sigalg(all, SignatureAlgorithm::ECDSA).len(), 1);
    assert_eq!(reduce_given_sigalg(all, SignatureScheme::ED25519.sign()).len(), 1);
    assert!(compatible_sigscheme_for_suites(SignatureScheme::ED25519, all));
}
''')

seed('s11-skip-empty', 'C11', 'evidence without an OCSP response stored in a binary (not self-describing) format',
 'an empty OCSP response is left out when serialised, so the evidence cannot be read back from binary formats',
 [(C+'cert.rs', "    ocsp_response: Vec<u8>,\n    scts: Option<SCTList>,\n}\n\nimpl", "    #[cfg_attr(\n        feature = \"serde\",\n        serde(default, skip_serializing_if = \"Vec::is_empty\")\n    )]\n    ocsp_response: Vec<u8>,\n    scts: Option<SCTList>,\n}\n\nimpl")],
 r'''
use tls_core::{cert::ServerCertDetails, key::Certificate};
fn main() {
    for ocsp in [vec![1u8, 2, 3], vec![]] {
        for scts in [None, Some(vec![])] {
            let d = ServerCertDetails::new(vec![Certificate(vec![9; 10])], ocsp.clone(), scts.clone());
            let b: ServerCertDetails = bincode::deserialize(&bincode::serialize(&d).unwrap()).expect("reads back");
            assert_eq!(b.ocsp_response(), d.ocsp_response());
            assert_eq!(b.cert_chain(), d.cert_chain());
            let j: ServerCertDetails = serde_json::from_str(&serde_json::to_string(&d).unwrap()).expect("reads back");
            assert_eq!(j.ocsp_response(), d.ocsp_response());
        }
    }
}
''', 'bincode = "1"\nserde_json = "1"')

seed('s12-sni-case', 'C12', 'a server name with upper-case letters',
 'the name sent in the SNI extension is not the accepted name',
 [(M+'handshake.rs', '''            PayloadU16::new(s.as_bytes().into())
        };
        Self::HostName((raw, hostname))''', '''            PayloadU16::new(s.to_ascii_lowercase().into_bytes())
        };
        Self::HostName((raw, hostname))''')],
 r'''
use tls_core::{dns::ServerName, msgs::{codec::Codec, handshake::ClientExtension}};
fn main() {
    for n in ["example.com", "Example.COM", "a-B.c"] {
        let s = ServerName::try_from(n).unwrap();
        let e = ClientExtension::make_sni(s.for_sni().unwrap()).get_encoding();
        assert!(e.ends_with(n.as_bytes()), "{n}");
    }
}
''')

seed('s13-adjacent-dup', 'C13', 'a TLS 1.3 certificate entry in which an extension is repeated with another one in between',
 'repeated extensions are noticed only when they are next to each other',
 [(M+'handshake.rs', '''        let mut seen = collections::HashSet::new();

        for ext in &self.exts {
            let typ = ext.get_type().get_u16();

            if seen.contains(&typ) {
                return true;
            }
            seen.insert(typ);
        }

        false
    }

    pub fn has_unknown_extension(&self) -> bool {''', '''        let mut last = None;

        for ext in &self.exts {
            let typ = ext.get_type().get_u16();

            if last == Some(typ) {
                return true;
            }
            last = Some(typ);
        }

        false
    }

    pub fn has_unknown_extension(&self) -> bool {''')],
 r'''
use tls_core::{key::Certificate, msgs::{base::Payload, enums::*, handshake::*}};
fn e(t: u16) -> CertificateExtension { CertificateExtension::Unknown(UnknownExtension { typ: ExtensionType::from(t), payload: Payload::empty() }) }
fn main() {
    let mut c = CertificateEntry::new(Certificate(vec![]));
    c.exts = vec![e(1), e(2), e(3)];
    assert!(!c.has_duplicate_extension());
    c.exts = vec![e(1), e(1), e(3)];
    assert!(c.has_duplicate_extension());
    c.exts = vec![e(1), e(2), e(1)];
    assert!(c.has_duplicate_extension(), "1 2 1");
}
''')

seed('s13-any-entry-sct', 'C13', 'a TLS 1.3 certificate message whose end-entity entry has no timestamps but whose intermediate has',
 'timestamps of an intermediate certificate are reported as those of the end entity',
 [(M+'handshake.rs', '''        self.entries
            .first()
            .and_then(CertificateEntry::get_scts)
            .cloned()''', '''        self.entries
            .iter()
            .find_map(CertificateEntry::get_scts)
            .cloned()''')],
 r'''
use tls_core::{key::Certificate, msgs::{base::PayloadU16, handshake::*}};
fn main() {
    let mut p = CertificatePayloadTLS13::new(vec![CertificateEntry::new(Certificate(vec![1])), CertificateEntry::new(Certificate(vec![2]))]);
    assert!(p.get_end_entity_scts().is_none());
    p.entries[1].exts.push(CertificateExtension::SignedCertificateTimestamp(vec![PayloadU16::new(vec![5])]));
    assert!(p.get_end_entity_scts().is_none(), "timestamps of the intermediate");
    p.entries[0].exts.push(CertificateExtension::SignedCertificateTimestamp(vec![PayloadU16::new(vec![6])]));
    assert_eq!(p.get_end_entity_scts().unwrap()[0].0, vec![6]);
}
''')

seed('s15-der-128', 'C15', 'a name or key whose content is exactly 128 bytes long',
 'the DER length is written in the short form, where 0x80 means indefinite length',
 [(C+'x509.rs', "    if len <= 0x7f {", "    if len <= 0x80 {")],
 r'''
fn main() {
    for n in 0..300usize {
        let mut v = vec![5u8; n];
        tls_core::x509::wrap_in_sequence(&mut v);
        let mut want = vec![0x30];
        if n < 128 { want.push(n as u8) } else if n < 256 { want.extend([0x81, n as u8]) } else { want.extend([0x82, (n >> 8) as u8, n as u8]) }
        assert_eq!(&v[..want.len()], &want[..], "{n}");
        assert_eq!(v.len(), n + want.len());
    }
}
''')

seed('s14-swapped-codes', 'C14', 'one of two rarely used named groups',
 'two groups have each other\'s numbers, so what is sent on the wire names the wrong group',
 [(M+'enums.rs', "        FFDHE6144 => 0x0103,\n        FFDHE8192 => 0x0104", "        FFDHE6144 => 0x0104,\n        FFDHE8192 => 0x0103")],
 r'''
use tls_core::msgs::enums::NamedGroup;
fn main() {
    assert_eq!(NamedGroup::FFDHE4096.get_u16(), 0x102);
    assert_eq!(NamedGroup::from(0x103), NamedGroup::FFDHE6144);
    assert_eq!(NamedGroup::from(0x104), NamedGroup::FFDHE8192);
}
''')

SIGN = r'''
use std::time::{Duration, UNIX_EPOCH};
#[allow(unused_imports)] use openssl::{asn1::*, bn::*, ec::*, hash::MessageDigest, nid::Nid, pkey::*, rsa::*, sign::*, x509::{*, extension::*}};
#[allow(unused_imports)] use tls_core::{anchors::*, cert::*, dns::*, handshake::*, ke::*, key::*, msgs::{base::*, enums::*, handshake::{DigitallySignedStruct, Random}}, verify::*, Error};
type K = PKey<Private>;
#[allow(dead_code)] fn ec(n: Nid) -> K { PKey::from_ec_key(EcKey::generate(&EcGroup::from_curve_name(n).unwrap()).unwrap()).unwrap() }
#[allow(dead_code)] fn name(s: &str) -> X509Name { let mut n = X509Name::builder().unwrap(); n.append_entry_by_text("CN", s).unwrap(); n.build() }
#[allow(dead_code)] fn cert(subject: &str, k: &K, issuer: &str, ik: &K, ca: bool) -> X509 {
    let mut b = X509::builder().unwrap();
    b.set_version(2).unwrap();
    b.set_subject_name(&name(subject)).unwrap();
    b.set_issuer_name(&name(issuer)).unwrap();
    b.set_pubkey(k).unwrap();
    let mut sn = BigNum::new().unwrap(); sn.rand(64, MsbOption::MAYBE_ZERO, false).unwrap();
    b.set_serial_number(&sn.to_asn1_integer().unwrap()).unwrap();
    b.set_not_before(&Asn1Time::from_unix(1_600_000_000).unwrap()).unwrap();
    b.set_not_after(&Asn1Time::from_unix(1_900_000_000).unwrap()).unwrap();
    if ca { b.append_extension(BasicConstraints::new().critical().ca().build().unwrap()).unwrap(); }
    else { let e = SubjectAlternativeName::new().dns(subject).build(&b.x509v3_context(None, None)).unwrap(); b.append_extension(e).unwrap(); }
    b.sign(ik, MessageDigest::sha256()).unwrap();
    b.build()
}
#[allow(dead_code)] fn der(c: &X509) -> Certificate { Certificate(c.to_der().unwrap()) }
#[allow(dead_code)] fn now() -> web_time::SystemTime { web_time::SystemTime::UNIX_EPOCH + Duration::from_secs(1_700_000_000) }
'''
SDEPS='openssl = "0.10"\nweb-time = "0.2"\nrustls-webpki = "0.103"\nrustls-pki-types = "1"'

seed('s08-tls13-curve', 'C08', 'a TLS 1.3 signature named ecdsa_secp256r1_sha256 made with a P-384 key',
 'the curve named by the scheme is not enforced in TLS 1.3',
 [(C+'verify.rs', '''    cert.verify_signature(alg, msg, &dss.sig.0)
        .map_err(pki_error)''', '''    // Prefer the algorithm the scheme names, but some servers name their
    // scheme by the hash only.
    cert.verify_signature(alg, msg, &dss.sig.0)
        .or_else(|_| {
            let algs = convert_scheme(dss.scheme).unwrap_or(&[]);
            verify_sig_using_any_alg(&cert, algs, msg, &dss.sig.0).map(|_| ())
        })
        .map_err(pki_error)''')],
 SIGN + r'''
struct V;
impl ServerCertVerifier for V {
    fn verify_server_cert(&self, _: &Certificate, _: &[Certificate], _: &ServerName, _: &mut (dyn Iterator<Item = &[u8]> + Send), _: &[u8], _: web_time::SystemTime) -> Result<ServerCertVerified, Error> { unreachable!() }
}
fn main() {
    let _ = UNIX_EPOCH;
    for (n, ok) in [(Nid::X9_62_PRIME256V1, true), (Nid::SECP384R1, false)] {
        let k = ec(n);
        let c = cert("a.b", &k, "a.b", &k, false);
        let mut s = Signer::new(MessageDigest::sha256(), &k).unwrap();
        let sig = s.sign_oneshot_to_vec(b"message").unwrap();
        let dss = DigitallySignedStruct::new(SignatureScheme::ECDSA_NISTP256_SHA256, sig);
        assert_eq!(V.verify_tls13_signature(b"message", &der(&c), &dss).is_ok(), ok);
        assert!(V.verify_tls12_signature(b"message", &der(&c), &dss).is_ok());
        assert!(V.verify_tls13_signature(b"massage", &der(&c), &dss).is_err());
    }
}
''', SDEPS)

seed('s16-take-scts', 'C16', 'a recorded handshake with more than four timestamps',
 'the verifier is not given the timestamps after the fourth',
 [(C+'handshake.rs', "                .map(|sct| sct.0.as_slice()),", "                .map(|sct| sct.0.as_slice())\n                .take(4),")],
 SIGN + r'''
use std::sync::Mutex;
struct V(Mutex<Vec<Vec<u8>>>);
impl ServerCertVerifier for V {
    fn verify_server_cert(&self, _: &Certificate, _: &[Certificate], _: &ServerName, s: &mut (dyn Iterator<Item = &[u8]> + Send), _: &[u8], _: web_time::SystemTime) -> Result<ServerCertVerified, Error> {
        *self.0.lock().unwrap() = s.map(|s| s.to_vec()).collect();
        Ok(ServerCertVerified::assertion())
    }
    fn verify_tls12_signature(&self, _: &[u8], _: &Certificate, _: &DigitallySignedStruct) -> Result<HandshakeSignatureValid, Error> { Ok(HandshakeSignatureValid::assertion()) }
}
fn main() {
    let _ = UNIX_EPOCH;
    for n in 0..10u8 {
        let scts: Vec<Vec<u8>> = (0..n).map(|i| vec![i; 5]).collect();
        let h = HandshakeData::new(ServerCertDetails::new(vec![Certificate(vec![1])], vec![], Some(scts.iter().cloned().map(PayloadU16::new).collect())),
            ServerKxDetails::new(vec![1], DigitallySignedStruct::new(SignatureScheme::ED25519, vec![1])), Random::from([1; 32]), Random::from([2; 32]));
        let v = V(Mutex::new(vec![]));
        h.verify(&v, now(), &ServerName::try_from("a.b").unwrap()).unwrap();
        assert_eq!(*v.0.lock().unwrap(), scts, "{n} timestamps");
    }
}
''', SDEPS)

seed('s07-same-subject', 'C07', 'a root store in which two anchors have the same subject but different keys, the needed one second',
 'only the first anchor of each subject is used, so a good chain to the other is refused',
 [(C+'verify.rs', '''        cert.verify_for_usage(
            webpki::ALL_VERIFICATION_ALGS,
            &self.roots.roots,''', '''        // Stores often list an anchor more than once, do not try it again.
        let mut roots: Vec<pki_types::TrustAnchor> = Vec::with_capacity(self.roots.len());
        for anchor in &self.roots.roots {
            if roots.iter().all(|seen| seen.subject != anchor.subject) {
                roots.push(anchor.clone());
            }
        }

        cert.verify_for_usage(
            webpki::ALL_VERIFICATION_ALGS,
            &roots,''')],
 SIGN + r'''
fn main() {
    let _ = UNIX_EPOCH;
    let (k1, k2, ke) = (ec(Nid::X9_62_PRIME256V1), ec(Nid::X9_62_PRIME256V1), ec(Nid::X9_62_PRIME256V1));
    let (r1, r2) = (der(&cert("root", &k1, "root", &k1, true)), der(&cert("root", &k2, "root", &k2, true)));
    let anchor = |c: &Certificate| { let d = rustls_pki_types::CertificateDer::from(c.0.clone()); webpki::anchor_from_trusted_cert(&d).unwrap().to_owned() };
    for k in [&k1, &k2] {
        let ee = der(&cert("a.b", &ke, "root", k, false));
        let mut roots = RootCertStore::empty();
        roots.roots = vec![anchor(&r1), anchor(&r2)];
        let v = WebPkiVerifier::new(roots, None);
        v.verify_server_cert(&ee, &[], &ServerName::try_from("a.b").unwrap(), &mut std::iter::empty(), &[], now()).expect("good chain");
    }
}
''', SDEPS)

seed('s17-unknown-version', 'C17', 'a server whose only (or last) timestamp is of an unknown version, under a transparency policy',
 'a server that presents only timestamps nobody can check is accepted',
 [(C+'verify.rs', '''        if let Some(last_sct_error) = last_sct_error {
            return Err''', '''        if let Some(last_sct_error) = last_sct_error
            .filter(|e| !matches!(e, sct::Error::UnsupportedSctVersion))
        {
            return Err''')],
 SIGN + r'''
fn main() {
    let _ = UNIX_EPOCH;
    let (k, ke) = (ec(Nid::X9_62_PRIME256V1), ec(Nid::X9_62_PRIME256V1));
    let r = der(&cert("root", &k, "root", &k, true));
    let ee = der(&cert("a.b", &ke, "root", &k, false));
    let d = rustls_pki_types::CertificateDer::from(r.0.clone());
    let mut roots = RootCertStore::empty();
    roots.roots = vec![webpki::anchor_from_trusted_cert(&d).unwrap().to_owned()];
    static LOG: sct::Log<'static> = sct::Log { description: "x", url: "x", operated_by: "x", key: &[0; 91], id: [7; 32], max_merge_delay: 1 };
    static LOGS: &[&sct::Log<'static>] = &[&LOG];
    let v = WebPkiVerifier::new(roots, Some(CertificateTransparencyPolicy::new(LOGS, now() + Duration::from_secs(1000))));
    let go = |scts: &[&[u8]]| v.verify_server_cert(&ee, &[], &ServerName::try_from("a.b").unwrap(), &mut scts.iter().copied(), &[], now()).is_ok();
    // a well-formed timestamp of an unknown log, and the same with version 2
    let mut s = vec![0u8]; s.extend([9; 32]); s.extend([0; 8]); s.extend([0, 0, 4, 3, 0, 4, 1, 2, 3, 4]);
    let mut t = s.clone(); t[0] = 1;
    assert!(go(&[]));
    assert!(!go(&[&s]));
    assert!(!go(&[&t]), "unknown version only");
    assert!(!go(&[&s, &t]), "unknown log, unknown version");
}
''', SDEPS + '\nsct = "0.7"')
