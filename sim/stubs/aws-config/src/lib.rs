pub use aws_types::region::Region;
pub use aws_types::SdkConfig;
use aws_credential_types::provider::{future, ProvideCredentials};
pub mod ecs {
    use super::*;
    #[derive(Debug, Default)] pub struct EcsCredentialsProvider;
    pub struct Builder;
    impl EcsCredentialsProvider { pub fn builder() -> Builder { Builder } }
    impl Builder { pub fn build(self) -> EcsCredentialsProvider { EcsCredentialsProvider } }
    impl ProvideCredentials for EcsCredentialsProvider {
        fn provide_credentials<'a>(&'a self) -> future::ProvideCredentials<'a> where Self: 'a { future::ProvideCredentials::ready(Ok(aws_credential_types::Credentials::from_keys("ecs", "ecs", None))) }
    }
}
pub struct ConfigLoader { region: Option<Region>, endpoint: Option<String>, creds: Option<aws_credential_types::provider::SharedCredentialsProvider> }
pub fn from_env() -> ConfigLoader { ConfigLoader { region: None, endpoint: None, creds: None } }
impl ConfigLoader {
    pub fn credentials_provider(mut self, p: impl ProvideCredentials + 'static) -> Self { self.creds = Some(aws_credential_types::provider::SharedCredentialsProvider::new(p)); self }
    pub fn region(mut self, r: impl Into<Option<Region>>) -> Self { self.region = r.into(); self }
    pub fn endpoint_url(mut self, u: impl Into<String>) -> Self { self.endpoint = Some(u.into()); self }
    pub async fn load(self) -> SdkConfig { let mut b = SdkConfig::builder(); b.set_region(self.region); b.set_endpoint_url(self.endpoint); b.set_credentials_provider(self.creds); b.build() }
}
