#[path = "/repo/network/src/processor/mod.rs"]
pub mod processor;
/// Stand-in for the transport.
pub mod p2p {
    pub struct TransportConfig(pub &'static str);
    pub static MAINNET_CONFIG: TransportConfig = TransportConfig("mainnet");
    #[derive(Default)]
    pub struct TransportBuilder(Option<&'static str>);
    impl TransportBuilder {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn with_config(mut self, c: &TransportConfig) -> Self {
            self.0 = Some(c.0);
            self
        }
        pub fn with_mainnet_config(self) -> Self {
            self.with_config(&MAINNET_CONFIG)
        }
        pub fn with_timeout(self, _: std::time::Duration) -> Self {
            self
        }
        pub fn build(self) -> Result<((), libp2p::PeerId), std::io::Error> {
            libp2p::env::see(format!("transport of {}", self.0.unwrap_or("no network")));
            if libp2p::env::with(|w| w.build_fails) {
                return Err(std::io::ErrorKind::Other.into());
            }
            Ok(((), libp2p::PeerId(1)))
        }
    }
}
