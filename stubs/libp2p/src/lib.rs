//! Stand-in for the parts of `libp2p` the app for browsers uses: a swarm that connects to what the
//! explorer says, opens a stream for each request, and hands the codec what the explorer sends.
pub use libp2p_derive::NetworkBehaviour;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct PeerId(pub u64);
impl std::fmt::Display for PeerId {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "peer{}", self.0)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Multiaddr(String);
#[derive(Debug)]
pub struct ParseError;
impl std::fmt::Display for ParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("invalid multiaddr")
    }
}
impl std::error::Error for ParseError {}
impl std::str::FromStr for Multiaddr {
    type Err = ParseError;
    fn from_str(s: &str) -> Result<Self, ParseError> {
        // protocol and value by turns, beginning with a slash; enough to tell what is no address
        let parts: Vec<&str> = s.split('/').collect();
        let known = ["ip4", "ip6", "dns", "dns4", "dns6", "tcp", "p2p", "ipfs"];
        let mut i = 1;
        if parts[0] != "" || parts.len() < 2 {
            return Err(ParseError);
        }
        while i < parts.len() {
            match parts[i] {
                "ws" | "wss" => i += 1,
                p if known.contains(&p) && parts.get(i + 1).map_or(false, |v| !v.is_empty()) => {
                    if p == "tcp" && parts[i + 1].parse::<u16>().is_err() {
                        return Err(ParseError);
                    }
                    i += 2
                }
                _ => return Err(ParseError),
            }
        }
        Ok(Self(s.into()))
    }
}

/// What the explorer decides and sees.
pub mod env {
    use std::cell::RefCell;
    /// What a read gives.
    #[derive(Clone, Debug, PartialEq)]
    pub enum Read {
        Bytes(Vec<u8>),
        Later,
        End,
        Fails,
    }
    #[derive(Clone, Debug, Default)]
    pub struct World {
        pub build_fails: bool,
        pub dial_fails: bool,
        /// the streams that are opened for a request, one after the other: what reading gives
        pub streams: Vec<Vec<Read>>,
        pub seen: Vec<String>,
        /// reads after the end or after a failure
        pub idle_reads: usize,
    }
    thread_local!(static WORLD: RefCell<World> = RefCell::default());
    pub fn set(w: World) {
        WORLD.with(|x| *x.borrow_mut() = w)
    }
    pub fn with<T>(f: impl FnOnce(&mut World) -> T) -> T {
        WORLD.with(|x| f(&mut x.borrow_mut()))
    }
    pub fn see(s: String) {
        with(|w| w.seen.push(s))
    }
}

pub mod core {
    pub trait ProtocolName {
        fn protocol_name(&self) -> &[u8];
    }
}

pub mod futures {
    pub use io::{AsyncRead, AsyncWrite};
    use std::future::Future;
    use std::io as sio;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    pub struct PollFn<F>(F);
    impl<F: Unpin + FnMut(&mut Context<'_>) -> Poll<T>, T> Future for PollFn<F> {
        type Output = T;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
            (self.0)(cx)
        }
    }
    pub fn poll_fn<T, F: Unpin + FnMut(&mut Context<'_>) -> Poll<T>>(f: F) -> PollFn<F> {
        PollFn(f)
    }

    pub mod io {
        use super::*;
        pub trait AsyncRead {
            fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<sio::Result<usize>>;
        }
        pub trait AsyncWrite {
            fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<sio::Result<usize>>;
            fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<sio::Result<()>>;
        }
        impl<T: AsyncRead + Unpin + ?Sized> AsyncRead for &mut T {
            fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<sio::Result<usize>> {
                Pin::new(&mut **self).poll_read(cx, buf)
            }
        }
        /// Reads through a buffer of 8 KiB, as the real one.
        pub struct BufReader<R> {
            pub(super) inner: R,
            pub(super) buf: Vec<u8>,
        }
        impl<R: AsyncRead> BufReader<R> {
            pub fn new(inner: R) -> Self {
                Self { inner, buf: vec![] }
            }
        }
    }
    pub struct ReadLine<'a, R> {
        reader: &'a mut io::BufReader<R>,
        line: &'a mut String,
        read: Vec<u8>,
        limit: bool,
    }
    impl<R: AsyncRead + Unpin> Future for ReadLine<'_, R> {
        type Output = sio::Result<usize>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<sio::Result<usize>> {
            let me = &mut *self;
            loop {
                if let Some(i) = me.reader.buf.iter().position(|b| *b == b'\n') {
                    me.read.extend(me.reader.buf.drain(..=i));
                    break;
                }
                me.read.append(&mut me.reader.buf);
                let mut b = [0; 8192];
                match Pin::new(&mut me.reader.inner).poll_read(cx, &mut b) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    Poll::Ready(Ok(0)) => break,
                    Poll::Ready(Ok(n)) => me.reader.buf.extend_from_slice(&b[..n]),
                }
            }
            let _ = me.limit;
            let n = me.read.len();
            match String::from_utf8(std::mem::take(&mut me.read)) {
                Ok(s) => {
                    me.line.push_str(&s);
                    Poll::Ready(Ok(n))
                }
                Err(_) => Poll::Ready(Err(sio::Error::new(sio::ErrorKind::InvalidData, "stream did not contain valid UTF-8"))),
            }
        }
    }
    pub trait AsyncBufReadExt {
        type R;
        fn read_line<'a>(&'a mut self, line: &'a mut String) -> ReadLine<'a, Self::R>;
    }
    impl<R: AsyncRead + Unpin> AsyncBufReadExt for io::BufReader<R> {
        type R = R;
        fn read_line<'a>(&'a mut self, line: &'a mut String) -> ReadLine<'a, R> {
            ReadLine { reader: self, line, read: vec![], limit: false }
        }
    }
    pub struct WriteAll<'a, W: ?Sized>(&'a mut W, &'a [u8]);
    impl<W: AsyncWrite + Unpin + ?Sized> Future for WriteAll<'_, W> {
        type Output = sio::Result<()>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<sio::Result<()>> {
            let me = &mut *self;
            while !me.1.is_empty() {
                match Pin::new(&mut *me.0).poll_write(cx, me.1) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    Poll::Ready(Ok(0)) => return Poll::Ready(Err(sio::ErrorKind::WriteZero.into())),
                    Poll::Ready(Ok(n)) => me.1 = &me.1[n..],
                }
            }
            Poll::Ready(Ok(()))
        }
    }
    pub struct Close<'a, W: ?Sized>(&'a mut W);
    impl<W: AsyncWrite + Unpin + ?Sized> Future for Close<'_, W> {
        type Output = sio::Result<()>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<sio::Result<()>> {
            Pin::new(&mut *self.0).poll_close(cx)
        }
    }
    pub trait AsyncWriteExt: AsyncWrite {
        fn write_all<'a>(&'a mut self, b: &'a [u8]) -> WriteAll<'a, Self> {
            WriteAll(self, b)
        }
        fn close(&mut self) -> Close<'_, Self> {
            Close(self)
        }
    }
    impl<W: AsyncWrite + ?Sized> AsyncWriteExt for W {}

    /// the trait of `select_next_some`, which the swarm has itself
    pub trait StreamExt {}
}

pub mod request_response {
    use super::*;
    use crate::core::ProtocolName;
    use crate::futures::*;
    use std::io;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    #[derive(Clone, Debug)]
    pub enum ProtocolSupport {
        Inbound,
        Outbound,
        Full,
    }
    #[derive(Clone, Debug, Default)]
    pub struct RequestResponseConfig(std::time::Duration);
    impl RequestResponseConfig {
        pub fn set_request_timeout(&mut self, d: std::time::Duration) -> &mut Self {
            self.0 = d;
            self
        }
    }
    #[async_trait::async_trait]
    pub trait RequestResponseCodec {
        type Protocol: ProtocolName + Clone;
        type Request;
        type Response;
        async fn read_request<T>(&mut self, p: &Self::Protocol, io: &mut T) -> io::Result<Self::Request>
        where
            T: AsyncRead + Unpin + Send;
        async fn read_response<T>(&mut self, p: &Self::Protocol, io: &mut T) -> io::Result<Self::Response>
        where
            T: AsyncRead + Unpin + Send;
        async fn write_request<T>(&mut self, p: &Self::Protocol, io: &mut T, r: Self::Request) -> io::Result<()>
        where
            T: AsyncWrite + Unpin + Send;
        async fn write_response<T>(&mut self, p: &Self::Protocol, io: &mut T, r: Self::Response) -> io::Result<()>
        where
            T: AsyncWrite + Unpin + Send;
    }
    #[derive(Debug)]
    pub enum RequestResponseEvent<Q, R> {
        Message { peer: PeerId, message: R, #[allow(dead_code)] request: std::marker::PhantomData<fn() -> Q> },
        OutboundFailure { peer: PeerId, error: String },
    }
    pub struct RequestResponse<C: RequestResponseCodec> {
        codec: C,
        protocol: C::Protocol,
        queue: Vec<(PeerId, C::Request)>,
    }
    impl<C: RequestResponseCodec> RequestResponse<C> {
        pub fn new(codec: C, mut protocols: impl Iterator<Item = (C::Protocol, ProtocolSupport)>, _: RequestResponseConfig) -> Self {
            Self { codec, protocol: protocols.next().expect("a protocol").0, queue: vec![] }
        }
        pub fn send_request(&mut self, peer: &PeerId, r: C::Request) -> u64 {
            self.queue.push((*peer, r));
            self.queue.len() as u64
        }
    }
    /// A stream to the peer.
    struct Stream(std::collections::VecDeque<env::Read>, bool, u32);
    impl AsyncRead for Stream {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
            if self.1 {
                self.2 += 1;
                env::with(|w| w.idle_reads += 1);
                assert!(self.2 < 1000, "the end of the stream was read a thousand times");
                return Poll::Ready(Ok(0));
            }
            match self.0.pop_front() {
                Some(env::Read::Later) => {
                    cx.waker().wake_by_ref();
                    Poll::Pending
                }
                Some(env::Read::Bytes(b)) => {
                    let n = b.len().min(buf.len());
                    buf[..n].copy_from_slice(&b[..n]);
                    if n < b.len() {
                        self.0.push_front(env::Read::Bytes(b[n..].to_vec()));
                    }
                    Poll::Ready(Ok(n))
                }
                Some(env::Read::Fails) => {
                    self.1 = true;
                    Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()))
                }
                Some(env::Read::End) | None => {
                    self.1 = true;
                    Poll::Ready(Ok(0))
                }
            }
        }
    }
    impl AsyncWrite for Stream {
        fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            env::see(format!("write {buf:?}"));
            Poll::Ready(Ok(buf.len()))
        }
        fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            env::see("close".into());
            Poll::Ready(Ok(()))
        }
    }
    impl<C: RequestResponseCodec> swarm::Inner for RequestResponse<C> {
        type Event = RequestResponseEvent<C::Request, C::Response>;
        fn connected(&mut self, _: PeerId) {}
        fn next<'a>(&'a mut self) -> Pin<Box<dyn std::future::Future<Output = Option<Self::Event>> + 'a>> {
            Box::pin(async move {
                if self.queue.is_empty() {
                    return None;
                }
                let (peer, r) = self.queue.remove(0);
                let s = env::with(|w| if w.streams.is_empty() { vec![] } else { w.streams.remove(0) });
                env::see(format!("request to {peer} by {}", String::from_utf8_lossy(self.protocol.protocol_name())));
                let mut s = Stream(s.into(), false, 0);
                let r = match self.codec.write_request(&self.protocol, &mut s, r).await {
                    Ok(()) => self.codec.read_response(&self.protocol, &mut s).await,
                    Err(e) => Err(e),
                };
                Some(match r {
                    Ok(message) => {
                        env::see("response".into());
                        RequestResponseEvent::Message { peer, message, request: Default::default() }
                    }
                    Err(e) => {
                        env::see(format!("failed: {e}"));
                        RequestResponseEvent::OutboundFailure { peer, error: e.to_string() }
                    }
                })
            })
        }
    }
}

pub mod swarm {
    use super::*;
    use std::future::Future;
    use std::pin::Pin;
    use std::task::Poll;

    pub trait NetworkBehaviourEventProcess<E> {
        fn inject_event(&mut self, e: E);
    }
    pub trait Inner {
        type Event;
        fn connected(&mut self, peer: PeerId);
        fn next<'a>(&'a mut self) -> Pin<Box<dyn Future<Output = Option<Self::Event>> + 'a>>;
    }
    pub trait NetworkBehaviour {
        fn connected(&mut self, peer: PeerId);
        fn run<'a>(&'a mut self) -> Pin<Box<dyn Future<Output = ()> + 'a>>;
    }
    #[derive(Debug)]
    pub enum SwarmEvent {
        ConnectionEstablished { peer_id: PeerId, num_established: u32 },
        ConnectionClosed { peer_id: PeerId },
        Dialing(PeerId),
    }
    pub struct Swarm<B> {
        behaviour: B,
        step: usize,
    }
    pub struct SwarmBuilder<B>(B);
    impl<B: NetworkBehaviour> SwarmBuilder<B> {
        pub fn new<T>(_: T, b: B, _: PeerId) -> Self {
            Self(b)
        }
        pub fn build(self) -> Swarm<B> {
            Swarm { behaviour: self.0, step: 0 }
        }
    }
    impl<B: NetworkBehaviour> Swarm<B> {
        pub fn dial(&mut self, a: Multiaddr) -> Result<(), String> {
            env::see(format!("dial {}", a.0));
            if env::with(|w| w.dial_fails) {
                return Err("dial error".into());
            }
            Ok(())
        }
        pub fn behaviour_mut(&mut self) -> &mut B {
            &mut self.behaviour
        }
        /// The connection is made, what is asked for is done, and then nothing happens any more.
        pub async fn select_next_some(&mut self) -> SwarmEvent {
            self.step += 1;
            match self.step {
                1 => SwarmEvent::Dialing(PeerId(7)),
                2 => {
                    self.behaviour.connected(PeerId(7));
                    SwarmEvent::ConnectionEstablished { peer_id: PeerId(7), num_established: 1 }
                }
                _ => {
                    self.behaviour.run().await;
                    env::see("idle".into());
                    futures::poll_fn(|_| Poll::<()>::Pending).await;
                    unreachable!()
                }
            }
        }
    }
}
