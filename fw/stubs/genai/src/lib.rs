//! Signatures only: the part of genai that tailcall uses.
#[derive(Debug)]
pub enum Error { Other(String) }
impl std::fmt::Display for Error {
    fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub mod adapter {
    #[derive(Debug, Clone, Copy)]
    pub enum AdapterKind { OpenAI, Ollama }
    impl AdapterKind {
        pub fn from_model(_m: &str) -> super::Result<Self> { unimplemented!() }
    }
    #[derive(Debug, Clone, Default)]
    pub struct AdapterConfig;
    impl AdapterConfig {
        pub fn with_auth_resolver(self, _r: super::resolver::AuthResolver) -> Self { unimplemented!() }
    }
}
pub mod resolver {
    #[derive(Debug, Clone)]
    pub struct AuthResolver;
    impl AuthResolver {
        pub fn from_key_value(_k: impl Into<String>) -> Self { unimplemented!() }
    }
}
pub mod chat {
    #[derive(Debug, Clone, Default)]
    pub struct ChatOptions;
    impl ChatOptions {
        pub fn with_json_mode(self, _b: bool) -> Self { unimplemented!() }
        pub fn with_temperature(self, _t: f64) -> Self { unimplemented!() }
    }
    #[derive(Debug, Clone)]
    pub struct ChatMessage;
    impl ChatMessage {
        pub fn system(_c: impl Into<String>) -> Self { unimplemented!() }
        pub fn user(_c: impl Into<String>) -> Self { unimplemented!() }
    }
    #[derive(Debug, Clone, Default)]
    pub struct ChatRequest;
    impl ChatRequest {
        pub fn new(_m: Vec<ChatMessage>) -> Self { unimplemented!() }
    }
    #[derive(Debug, Clone)]
    pub enum MessageContent { Text(String) }
    impl MessageContent {
        pub fn text_as_str(&self) -> Option<&str> { unimplemented!() }
    }
    #[derive(Debug, Clone, Default)]
    pub struct ChatResponse { pub content: Option<MessageContent> }
}
#[derive(Debug, Clone)]
pub struct Client;
pub struct ClientBuilder;
impl Client {
    pub fn builder() -> ClientBuilder { unimplemented!() }
    pub async fn exec_chat(&self, _m: &str, _r: chat::ChatRequest, _o: Option<&chat::ChatOptions>) -> Result<chat::ChatResponse> { unimplemented!() }
}
impl ClientBuilder {
    pub fn with_chat_options(self, _o: chat::ChatOptions) -> Self { unimplemented!() }
    pub fn insert_adapter_config(self, _k: adapter::AdapterKind, _c: adapter::AdapterConfig) -> Self { unimplemented!() }
    pub fn build(self) -> Client { unimplemented!() }
}
