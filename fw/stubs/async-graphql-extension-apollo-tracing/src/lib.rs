//! Signatures only: the part of async-graphql-extension-apollo-tracing that tailcall uses.
use std::sync::Arc;
use async_graphql::extensions::{Extension, ExtensionFactory};
pub struct ApolloTracing;
struct Ext;
impl Extension for Ext {}
impl ApolloTracing {
    pub fn new(_authorization_token: String, _hostname: String, _graph_id: String, _variant: String, _version: String) -> ApolloTracing { unimplemented!() }
}
impl ExtensionFactory for ApolloTracing {
    fn create(&self) -> Arc<dyn Extension> { Arc::new(Ext) }
}
