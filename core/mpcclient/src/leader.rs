use crate::{MpcTlsError, crypt::*};
use std::{
    collections::VecDeque,
    sync::{Arc, Mutex},
};
use tls_core::{
    cert::ServerCertDetails,
    ke::ServerKxDetails,
    key::PublicKey,
    msgs::{
        base::Payload,
        codec::Codec,
        enums::NamedGroup,
        handshake::Random,
        message::{OpaqueMessage, PlainMessage},
    },
};

#[derive(Debug)]
pub struct HandshakeData {
    pub(crate) server_random: Random,
    pub(crate) server_key: PublicKey,
    pub(crate) server_cert_details: ServerCertDetails,
    pub(crate) server_kx_details: ServerKxDetails,
}

/// What the client asked of the leader, in order.
#[derive(Debug, Clone, PartialEq)]
pub enum Event {
    Prepare { server_random: Vec<u8>, server_key: Vec<u8>, chain: Vec<Vec<u8>>, kx_params: Vec<u8>, kx_sig: Vec<u8>, ocsp: Vec<u8>, scts: Option<Vec<Vec<u8>>> },
    ClientFinished(Vec<u8>),
    ServerFinished(Vec<u8>),
    Incoming(u8, usize),
    Outgoing(u8, Vec<u8>),
    StartTraffic,
    Close,
    Decryption(bool),
}

#[derive(Default)]
pub struct Shared {
    pub log: Vec<Event>,
    calls: usize,
    /// Let this call of the leader fail.
    pub fail_at: Option<usize>,
}

impl Shared {
    /// Number of calls so far.
    pub fn calls(&self) -> usize {
        self.calls
    }
}

pub struct MpcTlsLeader {
    sh: Arc<Mutex<Shared>>,
    random: [u8; 32],
    ecdh: Ecdh,
    keys: Option<Keys>,
    seq: [u64; 2],
    inq: VecDeque<OpaqueMessage>,
    inr: VecDeque<PlainMessage>,
    outq: VecDeque<PlainMessage>,
    outr: VecDeque<OpaqueMessage>,
    closed: bool,
}

type R<T> = Result<T, MpcTlsError>;
fn err<T>(s: &str) -> R<T> {
    Err(MpcTlsError(s.into()))
}

impl MpcTlsLeader {
    pub fn standin(seed: u64) -> (Self, Arc<Mutex<Shared>>) {
        let sh = Arc::new(Mutex::new(Shared::default()));
        let s = seed.to_be_bytes();
        (
            Self {
                sh: sh.clone(),
                random: sha256(&[&b"client random"[..], &s].concat()),
                ecdh: Ecdh::new(&[&b"client key"[..], &s].concat()),
                keys: None,
                seq: [0; 2],
                inq: Default::default(),
                inr: Default::default(),
                outq: Default::default(),
                outr: Default::default(),
                closed: false,
            },
            sh,
        )
    }
    fn call(&self, e: Option<Event>) -> R<()> {
        let mut s = self.sh.lock().unwrap();
        s.calls += 1;
        if s.fail_at == Some(s.calls) {
            return err("injected failure");
        }
        s.log.extend(e);
        Ok(())
    }
    fn keys(&self) -> R<&Keys> {
        self.keys.as_ref().map_or_else(|| err("no keys"), Ok)
    }
    fn vd(&self, label: &[u8], h: &[u8]) -> R<Vec<u8>> {
        if h.len() != 32 {
            return err("hash length");
        }
        Ok(prf(&self.keys()?.master, label, h, 12))
    }

    pub(crate) fn client_random(&self) -> R<Random> {
        self.call(None)?;
        Ok(Random(self.random))
    }
    pub(crate) fn client_key_share(&self) -> R<PublicKey> {
        self.call(None)?;
        Ok(PublicKey::new(NamedGroup::secp256r1, &self.ecdh.public))
    }
    pub(crate) async fn prepare_encryption(&mut self, hs: HandshakeData) -> R<()> {
        let mut kx_params = vec![];
        kx_params.extend_from_slice(hs.server_kx_details.kx_params());
        let mut kx_sig = vec![];
        hs.server_kx_details.kx_sig().encode(&mut kx_sig);
        self.call(Some(Event::Prepare {
            kx_sig,
            ocsp: hs.server_cert_details.ocsp_response().to_vec(),
            scts: hs.server_cert_details.scts().map(|l| l.iter().map(|x| x.0.clone()).collect()),
            server_random: hs.server_random.0.to_vec(),
            server_key: hs.server_key.key.clone(),
            chain: hs.server_cert_details.cert_chain().iter().map(|c| c.0.clone()).collect(),
            kx_params,
        }))?;
        if self.keys.is_some() {
            return err("prepared twice");
        }
        if hs.server_key.group != NamedGroup::secp256r1 {
            return err("group");
        }
        let Some(pms) = self.ecdh.shared(&hs.server_key.key) else { return err("server key") };
        self.keys = Some(derive_keys(&pms, &self.random, &hs.server_random.0));
        Ok(())
    }
    pub(crate) async fn get_client_finished_vd(&mut self, h: Vec<u8>) -> R<Vec<u8>> {
        self.call(Some(Event::ClientFinished(h.clone())))?;
        self.vd(b"client finished", &h)
    }
    pub(crate) async fn get_server_finished_vd(&mut self, h: Vec<u8>) -> R<Vec<u8>> {
        self.call(Some(Event::ServerFinished(h.clone())))?;
        self.vd(b"server finished", &h)
    }
    pub(crate) async fn push_incoming(&mut self, m: OpaqueMessage) -> R<()> {
        self.call(Some(Event::Incoming(m.typ.get_u8(), m.payload.0.len())))?;
        self.inq.push_back(m);
        Ok(())
    }
    pub(crate) fn next_incoming(&mut self) -> R<Option<PlainMessage>> {
        self.call(None)?;
        Ok(self.inr.pop_front())
    }
    pub(crate) async fn push_outgoing(&mut self, m: PlainMessage) -> R<()> {
        self.call(Some(Event::Outgoing(m.typ.get_u8(), m.payload.0.clone())))?;
        self.keys()?;
        self.outq.push_back(m);
        Ok(())
    }
    pub(crate) fn next_outgoing(&mut self) -> R<Option<OpaqueMessage>> {
        self.call(None)?;
        Ok(self.outr.pop_front())
    }
    pub(crate) async fn start_traffic(&mut self) -> R<()> {
        self.call(Some(Event::StartTraffic))
    }
    pub(crate) async fn flush(&mut self) -> R<()> {
        self.call(None)?;
        while let Some(m) = self.inq.pop_front() {
            let k = self.keys()?;
            let mut v = vec![];
            m.version.encode(&mut v);
            let ver = u16::from_be_bytes([v[0], v[1]]);
            let Some(p) = open(k, 1, self.seq[1], m.typ.get_u8(), ver, &m.payload.0) else { return err("cannot decrypt") };
            self.seq[1] += 1;
            self.inr.push_back(PlainMessage { typ: m.typ, version: m.version, payload: Payload::new(p) });
        }
        while let Some(m) = self.outq.pop_front() {
            let k = self.keys()?;
            let mut v = vec![];
            m.version.encode(&mut v);
            let ver = u16::from_be_bytes([v[0], v[1]]);
            let c = seal(k, 0, self.seq[0], self.seq[0].to_be_bytes(), m.typ.get_u8(), ver, &m.payload.0);
            self.seq[0] += 1;
            self.outr.push_back(OpaqueMessage { typ: m.typ, version: m.version, payload: Payload::new(c) });
        }
        Ok(())
    }
    pub(crate) fn is_empty(&self) -> bool {
        self.inq.is_empty() && self.outq.is_empty() && self.inr.is_empty() && self.outr.is_empty()
    }
    pub(crate) async fn close_connection(&mut self) -> R<()> {
        self.call(Some(Event::Close))?;
        self.closed = true;
        Ok(())
    }
    pub(crate) fn enable_decryption(&mut self, enable: bool) {
        self.sh.lock().unwrap().log.push(Event::Decryption(enable));
    }
    pub(crate) fn finish(&mut self) -> Option<(mpz_common::Context, tlsn_core::transcript::TlsTranscript)> {
        None
    }
}
