//! Stand-in for `aws-config`.
pub use aws_types::region::Region;
use aws_credential_types::provider::{future, ProvideCredentials};
use aws_credential_types::Credentials;

#[derive(Clone, Debug, Default)]
pub struct SdkConfig {
    pub region: Option<Region>,
    pub endpoint_url: Option<String>,
    /// Debug text of the credentials (never contains the secret).
    pub credentials: Option<String>,
    /// What the provider hands out: access key, secret key.
    pub keys: Option<(String, String)>,
}
#[derive(Default)]
pub struct ConfigLoader(SdkConfig, Option<Box<dyn ProvideCredentials>>);
pub fn from_env() -> ConfigLoader {
    ConfigLoader::default()
}
impl ConfigLoader {
    pub fn credentials_provider(mut self, p: impl ProvideCredentials + 'static) -> Self {
        self.0.credentials = Some(format!("{p:?}"));
        self.1 = Some(Box::new(p));
        self
    }
    pub fn region(mut self, r: impl Into<Option<Region>>) -> Self {
        self.0.region = r.into();
        self
    }
    pub fn endpoint_url(mut self, u: impl Into<String>) -> Self {
        self.0.endpoint_url = Some(u.into());
        self
    }
    pub async fn load(mut self) -> SdkConfig {
        if let Some(p) = &self.1 {
            if let Ok(c) = p.provide_credentials().await {
                self.0.keys = Some((c.access_key_id().into(), c.secret_access_key().into()));
            }
        }
        self.0
    }
}
pub mod ecs {
    use super::*;
    #[derive(Debug)]
    pub struct EcsCredentialsProvider;
    pub struct Builder;
    impl EcsCredentialsProvider {
        pub fn builder() -> Builder {
            Builder
        }
    }
    impl Builder {
        pub fn build(self) -> EcsCredentialsProvider {
            EcsCredentialsProvider
        }
    }
    impl ProvideCredentials for EcsCredentialsProvider {
        fn provide_credentials<'a>(&'a self) -> future::ProvideCredentials<'a>
        where
            Self: 'a,
        {
            future::ProvideCredentials::ready(Ok(Credentials::from_keys("ecs", "ecs", None)))
        }
    }
}
