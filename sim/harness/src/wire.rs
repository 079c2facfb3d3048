//! The packet format on the wire, as an observer or attacker on the network sees it
use over_there::core::transport::auth::Digest;
use over_there::core::transport::crypto::Nonce;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Debug, Clone, Copy)]
pub enum Encryption {
    None,
    Encrypted,
    EncryptedWithNonce { nonce: Nonce },
}
#[derive(Serialize, Deserialize, Debug, Clone, Copy)]
pub enum Type {
    NotFinal,
    Final { encryption: Encryption },
}
#[derive(Serialize, Deserialize, Debug, Clone, Copy)]
pub struct Meta {
    pub id: u32,
    pub index: u32,
    pub r#type: Type,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Pkt {
    pub metadata: Meta,
    pub signature: Digest,
    #[serde(with = "serde_bytes")]
    pub data: Vec<u8>,
}
impl Pkt {
    pub fn parse(b: &[u8]) -> Option<Pkt> {
        serde_cbor::from_slice(b).ok()
    }
    pub fn bytes(&self) -> Vec<u8> {
        serde_cbor::ser::to_vec_packed(self).expect("harness: packet")
    }
    pub fn last(&self) -> bool {
        matches!(self.metadata.r#type, Type::Final { .. })
    }
    /// What a signature covers
    pub fn signed(&self) -> Vec<u8> {
        let mut v = serde_cbor::ser::to_vec_packed(&self.metadata).expect("harness: metadata");
        v.extend_from_slice(&self.data);
        v
    }
}
/// Packets at the front of a stream, and what is left
pub fn split(b: &[u8]) -> (Vec<Vec<u8>>, usize) {
    let mut v = vec![];
    let mut at = 0;
    while at < b.len() {
        let mut d = serde_cbor::Deserializer::from_slice(&b[at..]);
        match Pkt::deserialize(&mut d) {
            Ok(_) => {
                let n = d.byte_offset();
                v.push(b[at..at + n].to_vec());
                at += n;
            }
            Err(_) => break,
        }
    }
    (v, at)
}
