//! clibri 0.1.7: the traits are the published ones, byte for byte; logging configuration is a stub.
#[path = "transport/client.rs"]
pub mod client;
#[path = "transport/server.rs"]
pub mod server;
pub mod env {
    pub mod logs {
        pub mod targets {
            pub static SERVER: &str = "clibri::wsserver";
            pub static CLIENT: &str = "clibri::wsclient";
            pub static PRODUCER: &str = "clibri::producer";
            pub static CONSUMER: &str = "clibri::consumer";
        }
        pub fn init() {}
    }
}
