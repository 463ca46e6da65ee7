//! Test stand-in for webpki-roots: trusts only the loopback test CA in ../certs/ca.pem,
//! so that the conformance driver can answer HTTPS requests made by the unmodified crate.
#![no_std]
use pki_types::{Der, TrustAnchor};

pub const TLS_SERVER_ROOTS: &[TrustAnchor<'static>] = &[TrustAnchor {
    subject: Der::from_slice(&[0x31, 0x16, 0x30, 0x14, 0x06, 0x03, 0x55, 0x04, 0x03, 0x0c, 0x0d, 0x76, 0x65, 0x72, 0x69, 0x66, 0x20, 0x74, 0x65, 0x73, 0x74, 0x20, 0x43, 0x41]),
    subject_public_key_info: Der::from_slice(&[0x30, 0x13, 0x06, 0x07, 0x2a, 0x86, 0x48, 0xce, 0x3d, 0x02, 0x01, 0x06, 0x08, 0x2a, 0x86, 0x48, 0xce, 0x3d, 0x03, 0x01, 0x07, 0x03, 0x42, 0x00, 0x04, 0x95, 0x25, 0x1d, 0x74, 0x0c, 0x72, 0xdb, 0xf4, 0x7a, 0x34, 0x5c, 0x14, 0xaa, 0x43, 0xb6, 0x40, 0x4f, 0x38, 0x45, 0x23, 0x30, 0xfb, 0xe2, 0x05, 0xee, 0x46, 0xf9, 0xa4, 0xaf, 0x4f, 0xbc, 0x63, 0x5c, 0x67, 0xf8, 0x45, 0x4e, 0xc9, 0x69, 0xf2, 0xd2, 0xb2, 0x1c, 0xc3, 0x25, 0xd6, 0x93, 0xb2, 0xdc, 0xf0, 0x7b, 0x85, 0xe6, 0x68, 0x9d, 0x58, 0x01, 0xc2, 0x19, 0x3d, 0xb8, 0x49, 0x3a, 0xdb]),
    name_constraints: None,
}];
