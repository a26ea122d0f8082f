#![allow(dead_code, unused_imports)]
use fizyr_rpc::*;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::UnixStream;

/// A frame as it is on the wire, with the little-endian encoding.
fn frame(kind: u32, id: u32, service: i32, body: &[u8]) -> Vec<u8> {
	let mut f = Vec::new();
	f.extend(((body.len() + 12) as u32).to_le_bytes());
	f.extend(kind.to_le_bytes());
	f.extend(id.to_le_bytes());
	f.extend(service.to_le_bytes());
	f.extend(body);
	f
}
fn datagram(kind: u32, id: u32, service: i32, body: &[u8]) -> Vec<u8> { frame(kind, id, service, body)[4..].to_vec() }
/// Read one frame: (type, request ID, service ID, body).
async fn read_frame(s: &mut UnixStream) -> (u32, u32, i32, Vec<u8>) {
	let mut h = [0; 16];
	s.read_exact(&mut h).await.expect("frame header");
	let u = |i: usize| u32::from_le_bytes(h[i..i + 4].try_into().unwrap());
	let mut b = vec![0; u(0) as usize - 12];
	s.read_exact(&mut b).await.expect("frame body");
	(u(4), u(8), u(12) as i32, b)
}
/// No frame within a short time (or end of stream).
async fn no_frame(s: &mut UnixStream) -> bool {
	let mut b = [0; 1];
	match tokio::time::timeout(Duration::from_millis(300), s.read(&mut b)).await { Err(_) => true, Ok(Ok(0)) => true, _ => false }
}
async fn soon<T>(f: impl std::future::Future<Output = T>) -> Option<T> { tokio::time::timeout(Duration::from_secs(3), f).await.ok() }
async fn pause() { tokio::time::sleep(Duration::from_millis(100)).await }
fn check(ok: bool, what: &str) { if !ok { eprintln!("property broken: {}", what); std::process::exit(1) } }
fn block_on<T>(f: impl std::future::Future<Output = T>) -> T { tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f) }
/// A peer under test and the raw other end of its stream.
fn peer_and_raw() -> (PeerHandle<StreamBody>, UnixStream) {
	let (a, b) = UnixStream::pair().unwrap();
	(UnixStreamPeer::spawn(UnixStreamTransport::new(a, StreamConfig::default())), b)
}
