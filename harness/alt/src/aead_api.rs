//! One uniform view of both builds' authenticated ciphers.
use std::io::{Read, Write};

pub type Res = Result<Vec<u8>, String>;

pub trait Algo: Send + Sync {
    fn name(&self) -> &'static str;
    fn build(&self) -> &'static str;
    fn key_len(&self) -> usize;
    fn nonce_len(&self) -> usize;
    fn tag_len(&self) -> usize;
    /// explicit nonce; api 0: trait, 1: SymmetricEncryptor, 2: dynamic encryptor
    fn enc(&self, api: usize, key: &[u8], nonce: &[u8], aad: &[u8], msg: &[u8]) -> Res;
    fn dec(&self, api: usize, key: &[u8], nonce: &[u8], aad: &[u8], ct: &[u8]) -> Res;
    /// prepended nonce; api 0: trait, 1: SymmetricEncryptor, 2: dynamic, 3: trait stream, 4: SymmetricEncryptor stream
    fn enc_easy(&self, api: usize, key: &[u8], aad: &[u8], msg: &[u8], chunk: usize) -> Res;
    fn dec_easy(&self, api: usize, key: &[u8], aad: &[u8], ct: &[u8], chunk: usize) -> Result<(Vec<u8>, bool), String>;
    /// the streaming interfaces over a reader that fails after `reads` bytes and a writer that fails after
    /// `writes` bytes; whether they succeeded, and what was written
    fn broken(&self, dec: bool, sym: bool, key: &[u8], aad: &[u8], input: &[u8], chunk: usize, reads: usize, writes: usize, zero: bool) -> (bool, Vec<u8>);
    fn new_with_key_ok(&self, key: &[u8]) -> bool;
    fn to_json(&self, key: &[u8]) -> String;
    fn from_json_and_enc(&self, js: &str, nonce: &[u8], aad: &[u8], msg: &[u8]) -> Res;
    fn key_gen(&self) -> Vec<u8>;
    fn nonce_gen(&self) -> Vec<u8>;
    fn default_round_trip(&self, aad: &[u8], msg: &[u8]) -> Res;
    /// (valid key size, valid nonce size, name survives Display/FromStr)
    fn type_info(&self, ks: usize, ns: usize) -> Option<(bool, bool, bool)>;
}

/// A reader that hands out at most `chunk` bytes at a time and is interrupted now and then.
pub struct Slow<'a>(pub &'a [u8], pub usize, pub usize);
impl<'a> Read for Slow<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.2 += 1;
        if self.2 % 3 == 2 {
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        let n = self.0.len().min(b.len()).min(self.1.max(1));
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
/// A reader that fails once `2` bytes were read.
pub struct BadReader<'a>(pub &'a [u8], pub usize, pub usize);
impl<'a> Read for BadReader<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.2 == 0 {
            return Err(std::io::Error::from(std::io::ErrorKind::ConnectionReset));
        }
        let n = self.0.len().min(b.len()).min(self.1.max(1)).min(self.2);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        self.2 -= n;
        Ok(n)
    }
}
/// A writer that fails once `2` bytes were written, with an error or by taking nothing.
pub struct BadWriter<'a>(pub &'a mut Vec<u8>, pub usize, pub usize, pub bool);
impl<'a> Write for BadWriter<'a> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.2 == 0 {
            return if self.3 { Ok(0) } else { Err(std::io::Error::from(std::io::ErrorKind::BrokenPipe)) };
        }
        let n = b.len().min(self.1.max(1)).min(self.2);
        self.0.extend_from_slice(&b[..n]);
        self.2 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// A writer that accepts at most `chunk` bytes at a time.
pub struct Drip<'a>(pub &'a mut Vec<u8>, pub usize);
impl<'a> Write for Drip<'a> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1.max(1));
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

#[macro_export]
macro_rules! build_algos {
    ($krate:ident, $label:expr, $modname:ident) => {
        pub mod $modname {
            use $crate::aead_api::*;
            use aead::generic_array::{typenum::Unsigned, GenericArray};
            use aead::{Aead, NewAead, Payload};
            use std::str::FromStr;
            use $krate::encryption::symm::prelude::*;
            macro_rules! one {
                ($t:ident, $n:expr, $ty:expr) => {
                    pub struct $t;
                    impl Algo for $t {
                        fn name(&self) -> &'static str {
                            $n
                        }
                        fn build(&self) -> &'static str {
                            $label
                        }
                        fn key_len(&self) -> usize {
                            <super::$modname::inner::$t as NewAead>::KeySize::to_usize()
                        }
                        fn nonce_len(&self) -> usize {
                            <super::$modname::inner::$t as Aead>::NonceSize::to_usize()
                        }
                        fn tag_len(&self) -> usize {
                            <super::$modname::inner::$t as Aead>::TagSize::to_usize()
                        }
                        fn enc(&self, api: usize, key: &[u8], nonce: &[u8], aad: &[u8], msg: &[u8]) -> Res {
                            let ty: Option<EncryptorType> = $ty;
                            let r = match (api, ty) {
                                (2, Some(t)) => t.gen_encryptor(key).encrypt(nonce, aad, msg),
                                (1, _) => match SymmetricEncryptor::<inner::$t>::new_with_key(key) {
                                    Ok(e) => e.encrypt(nonce, aad, msg),
                                    Err(e) => Err(e),
                                },
                                _ => Aead::encrypt(&inner::$t::new(GenericArray::from_slice(key)), GenericArray::from_slice(nonce), Payload { msg, aad }),
                            };
                            r.map_err(|e| format!("{:?}", e))
                        }
                        fn dec(&self, api: usize, key: &[u8], nonce: &[u8], aad: &[u8], msg: &[u8]) -> Res {
                            let ty: Option<EncryptorType> = $ty;
                            let r = match (api, ty) {
                                (2, Some(t)) => t.gen_encryptor(key).decrypt(nonce, aad, msg),
                                (1, _) => match SymmetricEncryptor::<inner::$t>::new_with_key(key) {
                                    Ok(e) => e.decrypt(nonce, aad, msg),
                                    Err(e) => Err(e),
                                },
                                _ => Aead::decrypt(&inner::$t::new(GenericArray::from_slice(key)), GenericArray::from_slice(nonce), Payload { msg, aad }),
                            };
                            r.map_err(|e| format!("{:?}", e))
                        }
                        fn enc_easy(&self, api: usize, key: &[u8], aad: &[u8], msg: &[u8], chunk: usize) -> Res {
                            let ty: Option<EncryptorType> = $ty;
                            let e = inner::$t::new(GenericArray::from_slice(key));
                            let mut out = vec![];
                            let r = match (api, ty) {
                                (1, _) => SymmetricEncryptor::new(e).encrypt_easy(aad, msg),
                                (2, Some(t)) => t.gen_encryptor(key).encrypt_easy(aad, msg),
                                (3, _) => Encryptor::encrypt_buffer(&e, aad, &mut Slow(msg, chunk, 0), &mut Drip(&mut out, chunk)).map(|_| out),
                                (4, _) => SymmetricEncryptor::new(e).encrypt_buffer(aad, &mut Slow(msg, chunk, 0), &mut Drip(&mut out, chunk)).map(|_| out),
                                _ => Encryptor::encrypt_easy(&e, aad, msg),
                            };
                            r.map_err(|e| format!("{:?}", e))
                        }
                        fn dec_easy(&self, api: usize, key: &[u8], aad: &[u8], msg: &[u8], chunk: usize) -> Result<(Vec<u8>, bool), String> {
                            let ty: Option<EncryptorType> = $ty;
                            let e = inner::$t::new(GenericArray::from_slice(key));
                            let mut out = vec![];
                            let r = match (api, ty) {
                                (1, _) => SymmetricEncryptor::new(e).decrypt_easy(aad, msg),
                                (2, Some(t)) => t.gen_encryptor(key).decrypt_easy(aad, msg),
                                (3, _) | (4, _) => {
                                    let r = if api == 3 {
                                        Encryptor::decrypt_buffer(&e, aad, &mut Slow(msg, chunk, 0), &mut Drip(&mut out, chunk))
                                    } else {
                                        SymmetricEncryptor::new(e).decrypt_buffer(aad, &mut Slow(msg, chunk, 0), &mut Drip(&mut out, chunk))
                                    };
                                    match r {
                                        Ok(()) => Ok(out),
                                        Err(e) => return Err(format!("{:?}{}", e, if out.is_empty() { "" } else { " BUT WROTE OUTPUT" })),
                                    }
                                }
                                _ => Encryptor::decrypt_easy(&e, aad, msg),
                            };
                            r.map(|x| (x, true)).map_err(|e| format!("{:?}", e))
                        }
                        fn broken(&self, dec: bool, sym: bool, key: &[u8], aad: &[u8], input: &[u8], chunk: usize, reads: usize, writes: usize, zero: bool) -> (bool, Vec<u8>) {
                            let e = inner::$t::new(GenericArray::from_slice(key));
                            let mut out = vec![];
                            let ok = {
                                let (mut i, mut o) = (BadReader(input, chunk, reads), BadWriter(&mut out, chunk, writes, zero));
                                match (dec, sym) {
                                    (false, false) => Encryptor::encrypt_buffer(&e, aad, &mut i, &mut o).is_ok(),
                                    (false, true) => SymmetricEncryptor::new(e).encrypt_buffer(aad, &mut i, &mut o).is_ok(),
                                    (true, false) => Encryptor::decrypt_buffer(&e, aad, &mut i, &mut o).is_ok(),
                                    (true, true) => SymmetricEncryptor::new(e).decrypt_buffer(aad, &mut i, &mut o).is_ok(),
                                }
                            };
                            (ok, out)
                        }
                        fn new_with_key_ok(&self, key: &[u8]) -> bool {
                            SymmetricEncryptor::<inner::$t>::new_with_key(key).is_ok()
                        }
                        fn to_json(&self, key: &[u8]) -> String {
                            serde_json::to_string(&inner::$t::new(GenericArray::from_slice(key))).unwrap()
                        }
                        fn from_json_and_enc(&self, js: &str, nonce: &[u8], aad: &[u8], msg: &[u8]) -> Res {
                            let e: inner::$t = serde_json::from_str(js).map_err(|e| format!("json: {}", e))?;
                            Aead::encrypt(&e, GenericArray::from_slice(nonce), Payload { msg, aad }).map_err(|e| format!("{:?}", e))
                        }
                        fn key_gen(&self) -> Vec<u8> {
                            <inner::$t as Encryptor>::key_gen().unwrap().to_vec()
                        }
                        fn nonce_gen(&self) -> Vec<u8> {
                            <inner::$t as Encryptor>::nonce_gen().unwrap().to_vec()
                        }
                        fn default_round_trip(&self, aad: &[u8], msg: &[u8]) -> Res {
                            let e = SymmetricEncryptor::<inner::$t>::default();
                            let c = e.encrypt_easy(aad, msg).map_err(|e| format!("encrypt: {:?}", e))?;
                            e.decrypt_easy(aad, &c[..]).map_err(|e| format!("decrypt: {:?}", e))
                        }
                        fn type_info(&self, ks: usize, ns: usize) -> Option<(bool, bool, bool)> {
                            let ty: Option<EncryptorType> = $ty;
                            ty.map(|t| (t.is_valid_keysize(ks), t.is_valid_noncesize(ns), EncryptorType::from_str(&t.to_string()) == Ok(t)))
                        }
                    }
                };
            }
            pub mod inner {
                pub use $krate::encryption::symm::prelude::*;
            }
            one!(Aes128Gcm, "aes-128-gcm", Some(EncryptorType::Aes128Gcm));
            one!(Aes256Gcm, "aes-256-gcm", Some(EncryptorType::Aes256Gcm));
            one!(Aes128CbcHmac256, "aes-128-cbc-hmac-256", Some(EncryptorType::Aes128CbcHmac256));
            one!(Aes256CbcHmac512, "aes-256-cbc-hmac-512", Some(EncryptorType::Aes256CbcHmac512));
            one!(ChaCha20Poly1305, "chacha20poly1305", None);
            one!(XChaCha20Poly1305, "xchacha20poly1305", Some(EncryptorType::XChaCha20Poly1305));
            pub fn all() -> Vec<Box<dyn Algo>> {
                vec![Box::new(Aes128Gcm), Box::new(Aes256Gcm), Box::new(Aes128CbcHmac256), Box::new(Aes256CbcHmac512), Box::new(ChaCha20Poly1305), Box::new(XChaCha20Poly1305)]
            }
        }
    };
}
